"""Programs that make the operations of a plan of Stream.tla on real pipes and sockets, and the events they record."""
import random, re
class Plan:
    def __init__(self, p, seed, transport, path, ports):
        self.p, self.tcp, self.path, self.port, self.ports = p, transport == "tcp", path, ports[0], ports[1:]
        self.rng = random.Random(seed); self.text = {}           # contents of the writes by number
        self.src = self.program()
    def string(self, name, n):
        """statements that give the variable a string of n letters, and it"""
        if n <= 40: s = "".join(self.rng.choice("abcdefghijklmnopqrstuvwxyz") for _ in range(n)); return ['%s = "%s"' % (name, s)], s
        j = 0
        while n >> j > 40: j += 1
        t = "".join(self.rng.choice("abcdefghijklmnopqrstuvwxyz") for _ in range(n >> j)); u = "".join(self.rng.choice("ABCDEFG") for _ in range(n - (len(t) << j)))
        return ['%s = "%s"' % (name, t), "%d times: %s = %s + %s." % (j, name, name, name), '%s = %s + "%s"' % (name, name, u)], t * (1 << j) + u
    def program(self):
        self.of = {}
        new = "Aio_tcp" if self.tcp else "Aio_pipe(0)"
        where = '"127.0.0.1", %d' % self.port if self.tcp else '"%s"' % self.path
        head, body = ['load "aio"', "wn = 0", "wd = 0", "tn = 0", "td = 0", "fin = 0", "un = 0", "ud = 0", "ur = 0", "ls = %s" % new,
            'ev = (k, i, s, n, m):', '  "@" print', '  (k, i, s, n, m) say', "."], []
        serial = 0
        def ops(i, s, os, ind, n=None):
            nonlocal serial
            out = []
            for o in os:
                serial += 1; h = "%s%d" % (s, i)
                if o[0] in ("write", "rewrite", "echo"):
                    if o[0] != "echo":
                        v = "w%d" % serial; x, t = self.string(v, o[1]); head.extend(x); self.text[serial] = t
                        if self.rng.random() < 0.3: head.append("%s = %s bytes" % (v, v))
                    else: v = "b"
                    out += ["n%s = n%s + 1" % (h, h), "m%d = n%s" % (serial, h), "q%d = %s" % (serial, "lq" + h if o[0] == "rewrite" else "Aio_write()"),
                            'r = %s write(q%d, %s, 1, (st): wrote(%d, "%s", st, m%d).)' % (h, serial, v, i, s, serial),
                            "if (r == %s): wn = wn + 1." % h, "if (r == %s): lq%s = q%d." % (h, h, serial), "if (r != %s): n%s = n%s - 1." % (h, h, h), 'if (r == %s): "ok%s," print.' % (h, serial if o[0] != "echo" else ""), 'if (r != %s): "err," print.' % h]
                elif o[0] == "shut":
                    out += ["q%d = Aio_shutdown()" % serial, 'r = %s shutdown(q%d, (st): shut(%d, "%s", st).)' % (h, serial, i, s), 'if (r == %s): "ok," print.' % h, 'if (r != %s): "err," print.' % h]
                else:
                    out += ["r = %s stop" % h, "tn = tn + 1", "t%d = Aio_timer" % serial, "t%d start(ag%s, 2, 0)" % (serial, h), 'if (r == %s): "ok," print.' % h, 'if (r != %s): "err," print.' % h]
            return [" " * ind + l for l in out]
        body += ["wrote = (i, s, st, k):", "  wd = wd + 1", '  ev("wrote", i, s, st, k)', ".", "shut = (i, s, st):", "  fin = fin + 1", '  ev("shut", i, s, st, 0)', "."]
        for i, c in enumerate(self.p["con"], 1):
            for s in "cs":
                h = "%s%d" % (s, i)
                body += ["%s = %s" % (h, new), "g%s = 0" % h, "k%s = 0" % h, "n%s = 0" % h, "rd%s = nil" % h, "lq%s = Aio_write()" % h]
                body += ["ag%s = ():" % h, "  td = td + 1", '  ev("again", %d, "%s", 0, 0)' % (i, s), "  %s start(rd%s)" % (h, h), "."]
                q = c[s]
                body += ["rd%s = (n, b):" % h, "  if (n < 0):", "    fin = fin + 1", '    ev("eof", %d, "%s", n, 0)' % (i, s)] + ops(i, s, q["eof"], 4) + ["  .",
                         "  if (n >= 0):", '    ev("read", %d, "%s", n, b length)' % (i, s), '    "<" print', "    b string print", '    ">" print', "    g%s = g%s + n" % (h, h)]
                if q["echo"]: body += ["    if (n > 0):"] + ops(i, s, [["echo"]], 6) + ["    ."]
                for k, t in enumerate(q["th"]):
                    body += ["    if (k%s == %d):" % (h, k), "      if (g%s >= %d):" % (h, t["at"]), "        if (n > 0):", "          k%s = %d" % (h, k + 1)] + ops(i, s, t["ops"], 10) + ["        .", "      .", "    ."]
                body += ["    0", "  .", "."]
                body += ["op%s = (st):" % h, '  ev("%s", %d, "%s", st, 0)' % ("connected" if s == "c" else "accepted", i, s)] + (["  ls accept(%s)" % h] if s == "s" else []) + ["  %s start(rd%s)" % (h, h)] + ops(i, s, q["first"], 2) + ["  0", "."]
        def sends(i, os, ind):
            nonlocal serial
            out = []
            for to, n in os:
                if to == 0:
                    serial += 1
                    out += ["r = u%d recv_stop" % i, "tn = tn + 1", "t%d = Aio_timer" % serial, "t%d start(res%d, 2, 0)" % (serial, i), 'if (r == u%d): "ok," print.' % i, 'if (r != u%d): "err," print.' % i]; continue
                serial += 1; v = "w%d" % serial; x, t = self.string(v, n); head.extend(x); self.text[serial] = (to, t); self.of.setdefault(i, set()).add(serial)
                if self.rng.random() < 0.3: head.append("%s = %s bytes" % (v, v))
                out += ["nu%d = nu%d + 1" % (i, i), "m%d = nu%d" % (serial, i), "q%d = Aio_udp_send()" % serial,
                        'r = u%d send(q%d, %s, 1, "127.0.0.1", %d, (st): gsent(%d, st, m%d).)' % (i, serial, v, self.ports[to - 1], i, serial),
                        "un = un + 1"] + (["ur = ur + 1"] if n > 65507 else []) + ['if (r == u%d): "ok%d," print.' % (i, serial), 'if (r != u%d): "err," print.' % i]
            return [" " * ind + l for l in out]
        socks = self.p["socks"]
        if socks: body += ["gsent = (i, st, k):", "  ud = ud + 1", '  ev("gsent", i, 0, st, k)', "."]
        for i, q in enumerate(socks, 1): body += ["u%d = Aio_udp" % i, "r = u%d bind(\"127.0.0.1\", %d)" % (i, self.ports[i - 1]), 'if (r != u%d): "BUSY" say.' % i, "j%d = 0" % i, "nu%d = 0" % i]
        for i, q in enumerate(socks, 1):
            body += ["gr%d = nil" % i, "res%d = ():" % i, "  td = td + 1", '  ev("resume", %d, 0, 0, 0)' % i, "  u%d recv_start(gr%d)" % (i, i), "."]
            body += ["gr%d = (n, b, ip, port, fl):" % i, "  ur = ur + 1", '  ev("gram", %d, port, n, b length)' % i, '  "<" print', "  b string print", '  ">" print', '  (ip, fl) print', "  j%d = j%d + 1" % (i, i)]
            for k, os in enumerate(q["on"], 1):
                if os: body += ["  if (j%d == %d):" % (i, k)] + sends(i, os, 4) + ["  ."]
            body += ["  0", "."]
        if socks:
            for i, q in enumerate(socks, 1): body += ["r = u%d recv_start(gr%d)" % (i, i), 'if (r != u%d): "BUSY" say.' % i]
            body += ['ev("begin", 0, 0, 0, 0)']
            for i, q in enumerate(socks, 1): body += sends(i, q["first"], 0)
        nc = len(self.p["con"])
        body += ["na = 0", "acc = (st):", "  na = na + 1"]
        for i in range(1, nc + 1): body += ["  if (na == %d): ops%d(st)." % (i, i)]
        body += ['  if (na > %d): ev("accepted", na, "s", st, 0).' % nc, "  0", "."]
        body += ["r = ls bind(%s)" % where, 'if (r != ls): "BUSY" say.', "r = ls listen(8, acc)", 'if (r != ls): "BUSY" say.']
        for i in range(1, self.p["fails"] + 1):
            body += ["x%d = Aio_pipe(0)" % i, "y%d = Aio_connect" % i, 'x%d connect(y%d, "nothing%d.sock", (st):' % (i, i, i), "  fin = fin + 1", '  ev("fail", %d, "c", st, 0)' % i, ".)"]
        for i in range(1, nc + 1): body += ["z%d = Aio_connect" % i, "c%d connect(z%d, %s, opc%d)" % (i, i, where, i)]
        body += ["while (fin < %d or wd < wn or td < tn or ud < un or ur < un): ls run(nil, 1)." % (4 * nc + self.p["fails"]), "3 times: ls run(nil, 2).", '"@" print', '"end" say']
        return "\n".join(head + body) + "\n"
    def events(self, out):
        """the log of a run: [kind, connection, end, number, place, results], or the text that is not one"""
        log, got, sent, grams, cnt = [], {}, {}, {}, {}
        parts = out.split("@")
        if parts[0]: return log, parts[0][:200]
        for x in parts[1:]:
            if x.startswith("end"): return log, None
            m = re.match(r"\((\w+), (\d+), (\w+), (-?\d+), (-?\d+)\)\n(?:<([a-zA-Z]*)>(127\.0\.0\.10)?)?((?:ok\d*,|err,)*)$", x)
            if not m: return log, "unexpected output %r" % x[:200]
            k, e, n, at, data = m[1], (int(m[2]), m[3]), int(m[4]), int(m[5]), m[6] or ""
            if k == "read":
                o = (e[0], "s" if e[1] == "c" else "c"); g = got.get(e, 0)
                if len(data) != n or at != n: return log, "a callback says %d bytes, with %d bytes of length %d" % (n, len(data), at)
                at = g if sent.get(o, "")[g:g + n] == data else -1
                got[e] = g + n
            rs = [r for r in m[8].split(",") if r]
            if k in ("gsent", "begin", "resume"): e = (e[0], 0)
            if k == "gram":
                o = self.ports.index(int(e[1])) + 1 if int(e[1]) in self.ports else 0; j = grams.get((o, e[0]), [])
                if len(data) != n or at != n or not m[7]: return log, "a datagram of %d bytes with %d bytes of length %d, %r" % (n, len(data), at, x[-40:])
                while j and j[0][1] > 65507: j.pop(0)
                at = j[0][0] if j and j[0][2] == data else -1
                if j: j.pop(0)
                e = (e[0], o)
            if k in ("begin", "gram"):
                w = 0
                for r in rs:
                    if r.startswith("ok") and r != "ok":
                        to, t = self.text[int(r[2:])]
                        w = next(i for i, q in enumerate(self.p["socks"], 1) if int(r[2:]) in self.of.get(i, ())) if k == "begin" else e[0]
                        cnt[w, to] = cnt.get((w, to), 0) + 1; grams.setdefault((w, to), []).append((cnt[w, to], len(t), t))
                log.append([k, e[0], e[1], n, at, [] if k == "begin" and "err" not in rs else [r[:2] if r != "err" else r for r in rs]]); continue
            for r in rs:
                if r.startswith("ok") and r != "ok": sent[e] = sent.get(e, "") + self.text[int(r[2:])]
            if k == "read" and rs and self.p["con"][e[0] - 1][e[1]]["echo"] and rs[0] == "ok": sent[e] = sent.get(e, "") + data
            log.append([k, e[0], e[1], n, at, [r[:2] if r != "err" else r for r in rs]])
        return log, "the program did not end"

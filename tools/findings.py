# executed by mkfindings.py; prop.update({...}) for later fix commits
findings = [
 {"property": "P08", "key": "named-gap", "what": "a named argument while an earlier optional parameter is left out: g = (x, y:=5, z:=7) called as g(1, z=3) keeps z = 7 and leaves y unset (the call counts named arguments as positional ones)"},
]
prop.update({"== of a list or table grown": "P01", "a method without parameters called": "P09", "% of doubles was wrong": "P10", "abs of the smallest integer": "P10", 
 "collections while compiling": "P05", "a collection during a query": "P19", "bytecode files lost": "P14",
 "the interpreter refused operators": "P03", "a sign before": "P15", "the collector followed the step": "P05", "default values were taken": "P08", "the interpreter and <=>": "P10", "list arguments before a closure": "P08", "the collector took words of machine code": "P05", "sorting many equal": "P11", "ord decoded": "P03", "string slice with an end": "P03",
 "greg: ": "P16", "File.write wrote": "P13", "File.write of bytes": "P13", "a callback moved the rest": "P19", "the path of a buffered": "P13", "a closed buffered": "P13", "reading and writing buffered": "P13", "writing a string to a buffered": "P13",
 "loading a name with a dot": "P17", "the extension of a file": "P17", "a shared object in a directory": "P17", "loading a shared object": "P17", "a moved continuation lost": "P12", "stale words of the stack": "P05",
 "the place of a list turned": "P05", "send passed no": "P09", "methods sent from C": "P09", "the write barrier of a grown": "P05", "the collector changed characters": "P05",
 "a program with a string literal of 33": "P15", "the collector lost the message of an error": "P19", "formatting text used pointers": "P19",
 "the line editor hung": "P20", "control-d did not": "P20", "an interrupted line stayed": "P20", "the line editor misread": "P20", "shortening the history": "P20", "a completion and bytes": "P20", "every line read again": "P20", "without a prompt the cursor": "P20", "a line of full length": "P20",
 "libuv kept addresses": "P18", "walk of an event loop": "P18", "a run of the loop that left": "P18", "instance variables of udp": "P18", "hexadecimal literals beyond": "P15",
 "the index variable of a[k]": "P07", "a[i] with a negative": "P06", "freopen left": "P13",
 "no string or bytes could be written to a stream": "P22", "a stream read into": "P22", "receiving a datagram": "P22", "a datagram was sent with": "P22", "bytes waiting to be written": "P22",
 "callbacks of a pipe": "P22", "a pipe was always": "P22",
})

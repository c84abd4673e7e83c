SETS = [(5, 8, 16), (1, 3, 0), (1, 4, 4), (8, 8, 12), (3, 5, 6), (4, 5, 6), (4, 8, 16), (2, 4, 8)]
QUERIES = [dict(name="write", entry="h_write", jmp=True, unwind=97, checks=["mem", "div", "shift"], bounds="12 byte buffer, every content, position, width 0..32 and value")]
for b in SETS:
    D = ["-DB1=%d" % b[0], "-DB2=%d" % b[1], "-DB3=%d" % b[2], "-DN=8"]
    QUERIES += [dict(name="escape_%d_%d_%d" % b, entry="h_escape", jmp=True, defs=D, unwind=65, bounds="8 byte buffer, every position and value of the code"),
                dict(name="decode_%d_%d_%d" % b, entry="h_decode", jmp=True, defs=D, unwind=65, bounds="8 byte buffer, every content and position")]

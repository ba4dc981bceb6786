"""Damages a deck: the results are mostly illegal, some are legal and unusual."""

WORDS = ["", "0", "-1", "1", "2", "99999", "2147483647", "-2147483648", "99999999999", "1.0", "-1.5", ".0", "1.+3", "1e400", "-0.", "1.-400", "ABC", "THRU", "BY", "ENDT",
         "ALL", "SM", "LIN", "123456", "7", "1234567", "*", "+", ",", "$", "\"", "'", "YES", "S", "B", "NaN", "inf", "0x10", "=", "EXCEPT"]
KEYS = ["GRID", "CBAR", "CBEAM", "CBUSH", "CHEXA", "CONM2", "CORD2R", "CORD1R", "CQUAD4", "CTETRA", "DAREA", "DLOAD", "DMIG", "EIGR", "EIGRL", "FORCE", "FREQ1", "GRAV", "LOAD", "MAT1",
        "MAT8", "MOMENT", "MPC", "PBAR", "PBARL", "PBEAM", "PBEAML", "PBUSH", "PCOMP", "PELAS", "PLOAD4", "PROD", "PSHELL", "PSOLID", "RBAR", "RBE2", "RBE3", "RFORCE", "RLOAD2", "SET", "SPC",
        "SPC1", "SPCADD", "SPCD", "TABDMP1", "TABLED1", "INCLUDE", "ENDDATA", "BEGIN BULK", "SUBCASE", "SUBCOM", "SOL", "PARAM", "NLPARM", "CELAS1", "CELAS2", "CELAS4", "CDAMP1", "CMASS2", "CGAP",
        "PGAP", "BCTABLE", "BSURF", "BSURFS", "BCPROP", "CTRIA3", "CROD", "CVISC", "PVISC", "TABLES1", "MATS1", "MATHP", "NSM1", "RSPLINE", "DPHASE", "DELAY", "CONM1", "TEMP", "SPCR"]


def fields_of(line):
    """(kind, [cells]) of a bulk line"""
    if "," in line:
        return ",", line.split(",")
    if "\t" in line:
        return "\t", line.split("\t")
    w = 16 if line[:8].rstrip().endswith("*") else 8
    return w, [line[:8]] + [line[k:k + w] for k in range(8, max(len(line), 9), w)]


def join(kind, cells):
    if isinstance(kind, str):
        return kind.join(cells)
    return cells[0][:8].ljust(8) + "".join(c[:kind].ljust(kind) for c in cells[1:]).rstrip()


def mutate(rng, text, n=None):
    ls = text.split("\n")
    what = []
    for _ in range(n or rng.choice([1, 1, 1, 2, 3, 6])):
        if not ls:
            break
        k = rng.randrange(len(ls))
        op = rng.choice(["field"] * 6 + ["drop", "dup", "swap", "cut", "key", "cells", "move", "char", "trunc", "blank", "copyfield", "tail"])
        what.append(op)
        if op == "drop":
            del ls[k:k + rng.choice([1, 1, 1, 4])]
        elif op == "dup":
            ls.insert(k, ls[k])
        elif op == "swap":
            j = rng.randrange(len(ls))
            ls[k], ls[j] = ls[j], ls[k]
        elif op == "cut":
            ls[k] = ls[k][:rng.randint(0, max(1, len(ls[k])))]
        elif op == "trunc":
            if rng.random() < .3:
                ls = ls[:k + 1]
        elif op == "blank":
            ls.insert(k, "")
        elif op == "char" and ls[k]:
            p = rng.randrange(len(ls[k]))
            ls[k] = ls[k][:p] + chr(rng.choice([rng.randint(32, 126), rng.randint(1, 255)])) + ls[k][p + rng.choice([0, 1]):]
        elif op == "move":
            l = ls.pop(k)
            ls.insert(rng.randrange(len(ls) + 1), l)
        else:
            kind, c = fields_of(ls[k])
            if op == "key":
                c[0] = rng.choice(KEYS)
            elif op == "field":
                c[rng.randrange(len(c))] = rng.choice(WORDS)
            elif op == "cells":
                c = c[:rng.randint(1, len(c))] if rng.random() < .7 else c + [rng.choice(WORDS) for _ in range(rng.randint(1, 9))]
            elif op == "tail":
                c = c[:1] + [x for x in c[1:] for _ in range(rng.choice([1, 1, 2]))]
            elif op == "copyfield":
                j = rng.randrange(len(ls))
                c[rng.randrange(len(c))] = rng.choice(fields_of(ls[j])[1])
            ls[k] = join(kind, c)
    return "\n".join(ls), what

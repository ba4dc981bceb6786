"""Reads the Systus ASCII data files (layout of the Systus 'ASCII data' format)."""
import re
import shlex


class AscError(Exception):
    pass


class Asc:
    def __init__(self, text):
        if text is None:
            raise AscError("no ASC file")
        self.text = text
        lines = text.split("\n")
        if len(lines) < 4:
            raise AscError("truncated header")
        h = lines[2].split()
        if len(h) < 6 or h[0] != "100000":
            raise AscError("bad header line %r" % lines[2])
        self.header = dict(option=int(h[1]), nodes=int(h[2]), elements=int(h[3]), loads=int(h[4]), ndofs=int(h[5]))
        self.sections = {}
        self.counts = {}
        cur = None
        for l in lines[3:]:
            m = re.match(r"^BEGIN_([A-Z]+)\s*(.*)$", l)
            if m:
                if cur:
                    raise AscError("BEGIN_%s inside %s" % (m.group(1), cur))
                cur = m.group(1)
                if cur in self.sections:
                    raise AscError("section %s twice" % cur)
                self.sections[cur] = []
                self.counts[cur] = [int(x) for x in m.group(2).split()]
                continue
            m = re.match(r"^END_([A-Z]+)\s*$", l)
            if m:
                if m.group(1) != cur:
                    raise AscError("END_%s closes %s" % (m.group(1), cur))
                cur = None
                continue
            if cur:
                self.sections[cur].append(l)
            elif l.strip():
                raise AscError("text outside sections: %r" % l)
        if cur:
            raise AscError("section %s not closed" % cur)
        self.nodes = {}
        for l in self.sections.get("NODES", []):
            t = l.split()
            if len(t) < 9:
                raise AscError("short node line %r" % l)
            i = int(t[0])
            if i in self.nodes:
                raise AscError("node %d twice" % i)
            self.nodes[i] = dict(iconst=int(t[1]), imeca=int(t[2]), iangl=int(t[3]), isol=int(t[4]), idisp=int(t[5]),
                                 xyz=tuple(float(x) for x in t[6:9]))
        self.elements = {}
        for l in self.sections.get("ELEMENTS", []):
            t = l.split()
            i = int(t[0])
            if i in self.elements:
                raise AscError("element %d twice" % i)
            ty = int(t[1])
            dim, nature, nn = ty // 1000, (ty // 100) % 10, ty % 100
            self.elements[i] = dict(type=ty, dim=dim, nature=nature, nn=nn, rest=t[2:], line=l)
        self.groups = {}
        self.group_names = {}
        for l in self.sections.get("GROUPS", []):
            t = shlex.split(l)
            if len(t) < 7:
                raise AscError("short group line %r" % l)
            gid = int(t[0])
            if gid in self.groups:
                raise AscError("group number %d twice" % gid)
            self.groups[gid] = dict(name=t[1], kind=int(t[2]), items=[int(x) for x in t[7:]])
            self.group_names.setdefault(t[1], []).append(gid)
        self.materials = {}
        for l in self.sections.get("MATERIALS", []):
            t = l.split()
            i = int(t[0])
            if i in self.materials:
                raise AscError("material %d twice" % i)
            if len(t) % 2:
                raise AscError("odd material line %r" % l)
            d = {}
            for k, v in zip(t[2::2], t[3::2]):
                d[int(k)] = float(v)
            self.materials[i] = d
        self.loads = {}
        for l in self.sections.get("LOADS", []):
            t = shlex.split(l)
            self.loads[int(t[0])] = dict(name=t[1], rest=t[2:])
        self.lists = {}
        for l in self.sections.get("LISTS", []):
            t = [int(x) for x in l.split()]
            self.lists[t[0]] = list(zip(t[1::2], t[2::2]))
        self.vectors = {}
        for l in self.sections.get("VECTORS", []):
            t = l.split()
            i = int(t[0])
            if i in self.vectors:
                raise AscError("vector %d twice" % i)
            self.vectors[i] = [float(x) for x in t[1:]]
        self.masses = [l.split() for l in self.sections.get("MASSES", [])]

    def element_nodes(self, i):
        """Node numbers are the last nn entries of an element line."""
        e = self.elements[i]
        t = e["rest"]
        return [int(x) for x in t[len(t) - e["nn"]:]]


def parse(text):
    return Asc(text)

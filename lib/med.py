"""Reads a MED mesh through harness/meddump (which uses the MED library only)."""
import json
import os
import subprocess

import vbuild

_dump = None


class MedError(Exception):
    pass


def tool():
    global _dump
    if _dump is None:
        _dump = vbuild.tool("meddump")
    return _dump


class Med:
    def __init__(self, j):
        self.name = j["name"]
        self.nmesh = j["nmesh"]
        c = j["coords"]
        self.coords = [None] + [tuple(float(v) for v in x) for x in c]
        self.families = {}
        for f in j["families"]:
            if f["num"] in self.families:
                raise MedError("family number %d twice" % f["num"])
            self.families[f["num"]] = f
        self.cells = {}      # (type, index) -> (num, conn, fam)
        for t, d in j["cells"].items():
            for i, conn in enumerate(d["conn"]):
                self.cells[(t, i)] = (d["num"][i] if d.get("num") else None, tuple(conn), d["fam"][i] if d.get("fam") else 0)
        self.nodefam = j["nodefam"]
        self.raw = j
        self.cellgroups = {}
        for k, (num, conn, fam) in self.cells.items():
            for g in self._groups(fam):
                self.cellgroups.setdefault(g, set()).add(k)
        self.nodegroups = {}
        for i, fam in enumerate(self.nodefam):
            for g in self._groups(fam):
                self.nodegroups.setdefault(g, set()).add(i + 1)
        for f in self.families.values():
            kind = self.nodegroups if f["num"] > 0 else self.cellgroups
            for g in f["groups"]:
                kind.setdefault(g, set())

    def members(self, name):
        """the cells of a group, or the cell M<number>; None when there is no such thing"""
        if name in self.cellgroups:
            return self.cellgroups[name]
        if name[:1] == "M" and name[1:].isdigit():
            r = {k for k, c in self.cells.items() if c[0] == int(name[1:])}
            return r or None
        return None

    def _groups(self, fam):
        if fam == 0:
            return []
        if fam not in self.families:
            raise MedError("family %d is used and not defined" % fam)
        return self.families[fam]["groups"]


def read(path):
    if not os.path.exists(path):
        raise MedError("no MED file")
    p = subprocess.run([tool(), path], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode != 0:
        raise MedError("unreadable MED file: %s" % p.stderr.decode(errors="replace")[-300:])
    return Med(json.loads(p.stdout.decode(errors="replace")))


# local node i of the MED type is local node PERM[i] of the Nastran card
# (the numbering conventions published with each format, not the product's table)

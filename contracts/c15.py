"""C15: ClassDB is a stable bijection between classes and dense labels.

Abstract view: the sequence comb_class_list of class keys.  A class c is represented by
its key ckey(c) (the class itself, or zlib.compress(c.to_bytes(), 9))."""
from pyvc.world import World
from pyvc.ty import U


def world(repo="/repo"):
    w = World(repo)
    w.u("CClass")
    w.u("Bytes")
    w.u("Other")
    KEY = "union[CClass,Bytes]"
    w.isinstance_types["bytes"] = w.tenv.parse("Bytes")
    w.isinstance_types["int"] = w.tenv.parse("int")
    # trusted environment: the user's class and zlib
    w.ghostfn("no_bytes", ["CClass"], "bool")
    w.ghostfn("no_bytes_b", ["Bytes"], "bool")
    w.ghostfn("NB", [], "bool")
    w.attr("CClass", "to_bytes", "Bytes", raises=("no_bytes", "NotImplementedError"), method=True)
    w.attr("CClass", "is_empty", "bool", method=True)
    w.ghostfn("zc", ["Bytes"], "Bytes")
    w.ghostfn("fromb", ["Bytes"], "CClass")
    w.ghostfn("zd", ["Bytes"], "Bytes")
    w.axiom("to_bytes is implemented for all classes or for none (and from_bytes likewise)",
            {"c": "CClass"}, "no_bytes(c) == NB()", ["no_bytes(c)"])
    w.axiom("zlib.decompress inverts zlib.compress", {"b": "Bytes"}, "zd(zc(b)) == b", ["zc(b)"])
    w.axiom("from_bytes inverts to_bytes (the user's class)", {"c": "CClass"},
            "fromb(CClass_to_bytes(c)) == c", ["CClass_to_bytes(c)"])
    from pyvc.world import Contract
    w.externs["zlib.compress"] = Contract("zlib.compress", params={"b": "Bytes", "lvl": "int"},
                                          returns="Bytes", pure_result="zc(b)", trusted=True,
                                          note="zlib.compress is a function with inverse zlib.decompress")
    w.externs["zlib.decompress"] = Contract("zlib.decompress", params={"b": "Bytes"},
                                            returns="Bytes", pure_result="zd(b)", trusted=True,
                                            note="zlib.decompress inverts zlib.compress")
    w.contracts["CClass.cls.from_bytes"] = Contract(
        "CClass.from_bytes", params={"b": "Bytes"}, returns="CClass",
        may_raise={"NotImplementedError": "NB()"}, pure_result="fromb(b)",
        trusted=True, note="from_bytes inverts to_bytes; raises NotImplementedError iff to_bytes does")
    w.macro("ckey(c)", f"cast('{KEY}', c) if NB() else cast('{KEY}', zc(CClass_to_bytes(c)))")
    w.macro("wfkey(k)", "any(k == ckey(c) for c in every('CClass'))")
    w.nt("Info", [("comb_class", KEY), ("label", "int"), ("empty", "opt[bool]")],
         src=("class_db", "Info"))
    FLD = {"comb_class_list": f"list[{KEY}]", "label_dict": f"dict[{KEY},int]",
           "empty_list": "list[opt[bool]]"}
    INV = [
        ("same length", "len(self.comb_class_list) == len(self.empty_list)"),
        ("dict labels in range", "all(0 <= self.label_dict[k] and self.label_dict[k] < len(self.comb_class_list)"
         " and self.comb_class_list[self.label_dict[k]] == k for k in self.label_dict)"),
        ("list entries labelled by position", "all(self.comb_class_list[i] in self.label_dict and "
         "self.label_dict[self.comb_class_list[i]] == i for i in range(len(self.comb_class_list)))"),
        ("keys are class keys", "all(wfkey(self.comb_class_list[i]) for i in range(len(self.comb_class_list)))"),
    ]
    w.record("LabelToInfo", FLD, INV, src=("class_db", "LabelToInfo"))
    w.record("ClassToInfo", FLD, INV, src=("class_db", "ClassToInfo"))
    w.record("ClassDB", dict(FLD, class_to_info="ClassToInfo", label_to_info="LabelToInfo",
                             combinatorial_class="type:CClass", _empty_time="opaque",
                             _empty_num_application="int"),
             INV + [("cached emptiness is the class's own answer",
                     "all(all(implies(self.comb_class_list[i] == ckey(c) and self.empty_list[i] is not None,"
                     " self.empty_list[i] == CClass_is_empty(c)) for c in every('CClass'))"
                     " for i in range(len(self.comb_class_list)))")],
             alias={"class_to_info.comb_class_list": "comb_class_list",
                    "class_to_info.label_dict": "label_dict",
                    "class_to_info.empty_list": "empty_list",
                    "label_to_info.comb_class_list": "comb_class_list",
                    "label_to_info.label_dict": "label_dict",
                    "label_to_info.empty_list": "empty_list"},
             src=("class_db", "ClassDB"))
    P = ["C15"]
    w.contract("class_db.ClassDB._compress", self_type="ClassDB", params={"key": "CClass"},
               returns=KEY, ensures=[("key of the class", "result == ckey(key)")],
               pure_result="ckey(key)", use_inv=False, props=P)
    w.contract("class_db.ClassDB._decompress", self_type="ClassDB", params={"key": KEY},
               returns="CClass", requires=[("a class key", "wfkey(key)")],
               ensures=[("class of the key", "ckey(result) == key")], use_inv=False, props=P)
    for nm in ("LabelToInfo", "ClassToInfo"):
        w.contract(f"class_db.{nm}.__len__", self_type=nm, returns="int",
                   ensures=[("length", "result == len(self.comb_class_list)")], props=P)
    w.contract("class_db.LabelToInfo.__getitem__", self_type="LabelToInfo", params={"label": "int"},
               returns="opt[Info]",
               ensures=[("None iff unknown label", "(result is None) == (not (0 <= label and label < len(self.comb_class_list)))"),
                        ("info of the label", "implies(result is not None, result.comb_class == self.comb_class_list[label]"
                         " and result.label == label and result.empty == self.empty_list[label])")],
               props=P)
    w.contract("class_db.ClassToInfo.__getitem__", self_type="ClassToInfo", params={"class_key": KEY},
               returns="opt[Info]",
               ensures=[("None iff unknown class", "(result is None) == (class_key not in self.label_dict)"),
                        ("info of the class", "implies(result is not None, result.comb_class == class_key"
                         " and result.label == self.label_dict[class_key] and"
                         " result.empty == self.empty_list[result.label])")],
               props=P)
    w.contract("class_db.ClassToInfo.__contains__", self_type="ClassToInfo", params={"class_key": KEY},
               returns="bool", ensures=[("membership", "result == (class_key in self.label_dict)")], props=P)
    # the append-only step
    w.macro("prefix(db)", "len(old(db.comb_class_list)) <= len(db.comb_class_list) and "
            "all(db.comb_class_list[i] == old(db.comb_class_list)[i] and db.empty_list[i] == old(db.empty_list)[i]"
            " for i in range(len(old(db.comb_class_list))))")
    w.macro("grown(db, k)", "prefix(db) and k in db.label_dict and "
            "all((kk in db.label_dict) == (kk in old(db.label_dict) or kk == k)"
            f" for kk in every('{KEY}')) and "
            "all(db.label_dict[kk] == old(db.label_dict)[kk] for kk in old(db.label_dict)) and "
            "len(db.comb_class_list) == len(old(db.comb_class_list)) + (0 if k in old(db.label_dict) else 1) and "
            "implies(k not in old(db.label_dict), db.label_dict[k] == len(old(db.comb_class_list)) and "
            "db.empty_list[len(old(db.comb_class_list))] is None)")
    MOD = ["self.comb_class_list", "self.label_dict", "self.empty_list",
           "self.class_to_info.*", "self.label_to_info.*"]
    w.contract("class_db.ClassDB.__init__", self_type="ClassDB",
               params={"combinatorial_class": "type:CClass"}, is_init=True,
               ensures=[("empty", "len(self.comb_class_list) == 0")], props=P)
    w.contract("class_db.ClassDB.add", self_type="ClassDB",
               params={"comb_class": KEY, "compressed": "bool"},
               requires=[("a class, or a class key when compressed",
                          "implies(compressed, wfkey(comb_class))")],
               raises={"TypeError": "not compressed and not isa(comb_class, 'CClass')"},
               ensures=[("added when compressed", "implies(compressed, grown(self, comb_class))"),
                        ("added", "implies(not compressed, grown(self, ckey(cast('CClass', comb_class))))")],
               modifies=MOD, props=P)
    ANYKEY = "union[CClass,int,Other]"
    w.contract("class_db.ClassDB._get_info", self_type="ClassDB", params={"key": ANYKEY},
               returns="Info", modifies=MOD,
               raises={"TypeError": "isa(key, 'Other')",
                       "KeyError": "isa(key, 'int') and not (0 <= cast('int', key) and cast('int', key) < len(self.comb_class_list))"},
               ensures=[("of a class", "implies(isa(key, 'CClass'), grown(self, ckey(cast('CClass', key))) and"
                         " result.comb_class == ckey(cast('CClass', key)) and"
                         " result.label == self.label_dict[ckey(cast('CClass', key))])"),
                        ("of a label", "implies(isa(key, 'int'), prefix(self) and len(self.comb_class_list) == len(old(self.comb_class_list))"
                         " and same(self.label_dict, old(self.label_dict)) and"
                         " result.label == cast('int', key) and result.comb_class == self.comb_class_list[cast('int', key)])"),
                        ("label is valid", "0 <= result.label and result.label < len(self.comb_class_list)"
                         " and self.comb_class_list[result.label] == result.comb_class")],
               exc_ensures=[("unchanged", "prefix(self) and len(self.comb_class_list) == len(old(self.comb_class_list))")],
               props=P)
    w.contract("class_db.ClassDB.get_label", self_type="ClassDB", params={"key": ANYKEY},
               returns="int", modifies=MOD,
               raises={"TypeError": "isa(key, 'Other')",
                       "KeyError": "isa(key, 'int') and not (0 <= cast('int', key) and cast('int', key) < len(self.comb_class_list))"},
               ensures=[("label of a class", "implies(isa(key, 'CClass'), grown(self, ckey(cast('CClass', key))) and"
                         " result == self.label_dict[ckey(cast('CClass', key))])"),
                        ("label of a label", "implies(isa(key, 'int'), prefix(self) and len(self.comb_class_list) == len(old(self.comb_class_list))"
                         " and same(self.label_dict, old(self.label_dict)) and result == cast('int', key))"),
                        ("label is valid", "0 <= result and result < len(self.comb_class_list)")],
               props=P)
    w.contract("class_db.ClassDB.get_class", self_type="ClassDB", params={"key": ANYKEY},
               returns="CClass", modifies=MOD,
               raises={"TypeError": "isa(key, 'Other')",
                       "KeyError": "isa(key, 'int') and not (0 <= cast('int', key) and cast('int', key) < len(self.comb_class_list))"},
               ensures=[("class of a label", "implies(isa(key, 'int'), ckey(result) == old(self.comb_class_list)[cast('int', key)])"),
                        ("class of a class", "implies(isa(key, 'CClass'), result == cast('CClass', key) and grown(self, ckey(result)))"),
                        ("unchanged by labels", "implies(isa(key, 'int'), prefix(self) and len(self.comb_class_list) == len(old(self.comb_class_list)))")],
               props=P)
    w.contract("class_db.ClassDB.__contains__", self_type="ClassDB", params={"key": ANYKEY},
               returns="bool",
               ensures=[("total membership", "result == ((isa(key, 'CClass') and ckey(cast('CClass', key)) in self.label_dict)"
                         " or (isa(key, 'int') and 0 <= cast('int', key) and cast('int', key) < len(self.comb_class_list)))")],
               props=P)
    w.contract("class_db.ClassDB._is_empty", self_type="ClassDB", params={"comb_class": "CClass"},
               returns="bool", modifies=["self._empty_num_application", "self._empty_time"],
               ensures=[("the class's own answer", "result == CClass_is_empty(comb_class)")], props=P)
    w.contract("class_db.ClassDB.set_empty", self_type="ClassDB", params={"key": ANYKEY, "empty": "bool"},
               requires=[("label known", "isa(key, 'int') and 0 <= cast('int', key) and cast('int', key) < len(self.comb_class_list)"),
                         ("truthful", "all(implies(ckey(c) == self.comb_class_list[cast('int', key)], empty == CClass_is_empty(c)) for c in every('CClass'))")],
               modifies=["self.empty_list", "self.class_to_info.empty_list", "self.label_to_info.empty_list"],
               ensures=[("stored", "self.empty_list[cast('int', key)] == empty"),
                        ("others kept", "all(implies(i != cast('int', key), self.empty_list[i] == old(self.empty_list)[i]) for i in range(len(self.empty_list)))"
                         " and len(self.empty_list) == len(old(self.empty_list))")],
               props=P)
    w.contract("class_db.ClassDB.is_empty", self_type="ClassDB",
               params={"comb_class": "CClass", "label": "opt[int]"}, returns="bool",
               requires=[("the class's label", "ckey(comb_class) in self.label_dict and implies(label is not None, label == self.label_dict[ckey(comb_class)])")],
               modifies=["self.empty_list", "self.class_to_info.empty_list", "self.label_to_info.empty_list",
                         "self._empty_num_application", "self._empty_time"],
               ensures=[("the class's own answer", "result == CClass_is_empty(comb_class)")], props=P)
    return w

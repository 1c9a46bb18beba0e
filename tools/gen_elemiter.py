#!/usr/bin/env python3
"""writes proofs/elemiter.rs: the contracts of the element iterators, one copy per instance of the macro"""
import os
import re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRE = "requires old(self).wf(),\n    ensures final(self).wf(), final(self).vec == old(self).vec,"
T = '\nimpl@L@ @N@@U@ {\n    pub open spec fn lo(&self) -> int { self.index as int }\n    pub open spec fn hi(&self) -> int { match self.back_index { Some(x) => x + 1, None => 0 } }\n    pub open spec fn wf(&self) -> bool { self.vec.wf() && self.lo() <= self.hi() <= self.vec.len }\n//@@ fn macro:@I@ @N@::new\n//@ props C20\n//@ spec\n    requires vec.wf(),\n    ensures r.wf(), r.vec == vec, r.lo() == 0, r.hi() == vec.len,\n//@@ end\n//@@ fn macro:@I@ @N@::is_iter_empty\n//@ props C20\n//@ spec\n    requires self.wf(),\n    ensures r == (self.lo() >= self.hi()),\n//@@ end\n//@@ fn macro:@I@ <@N@ as ExactSizeIterator>::len\n//@ props C20\n//@ spec\n    requires self.wf(),\n    ensures r == self.hi() - self.lo(),\n//@@ end\n//@@ fn macro:@I@ @N@::advance_by\n//@ props C20\n//@ spec\n    PRE\n        final(self).hi() == old(self).hi(),\n        r is Ok <==> n <= old(self).hi() - old(self).lo(),\n        r is Ok ==> final(self).lo() == old(self).lo() + n,\n        r is Err ==> final(self).lo() == old(self).lo(),\n//@@ end\n//@@ fn macro:@I@ @N@::advance_back_by optmap\n//@ props C20\n//@ spec\n    PRE\n        final(self).lo() == old(self).lo(),\n        r is Ok <==> n <= old(self).hi() - old(self).lo(),\n        r is Ok ==> final(self).hi() == old(self).hi() - n,\n        r is Err ==> final(self).hi() == old(self).hi(),\n//@@ end\n//@@ fn macro:@I@ <@N@ as Iterator>::next optmap\n//@ props C20\n//@ ret\nOption<@T@>\n//@ spec\n    PRE\n        final(self).hi() == old(self).hi(),\n        old(self).lo() >= old(self).hi() ==> r is None && final(self).lo() == old(self).lo(),\n        old(self).lo() < old(self).hi() ==> r == Some(@ITEM@[old(self).lo()@E@) && final(self).lo() == old(self).lo() + 1,\n//@@ end\n//@@ fn macro:@I@ <@N@ as DoubleEndedIterator>::next_back optmap\n//@ props C20\n//@ ret\nOption<@T@>\n//@ spec\n    PRE\n        final(self).lo() == old(self).lo(),\n        old(self).lo() >= old(self).hi() ==> r is None && final(self).hi() == old(self).hi(),\n        old(self).lo() < old(self).hi() ==> r == Some(@ITEM@[old(self).hi() - 1@E@) && final(self).hi() == old(self).hi() - 1,\n//@@ end\n//@@ fn macro:@I@ <@N@ as Iterator>::nth\n//@ props C20\n//@ ret\nOption<@T@>\n//@ spec\n    PRE\n        final(self).hi() == old(self).hi(),\n        old(self).lo() + n >= old(self).hi() ==> r is None && final(self).lo() == old(self).hi(),\n        old(self).lo() + n < old(self).hi() ==> r == Some(@ITEM@[old(self).lo() + n@E@) && final(self).lo() == old(self).lo() + n + 1,\n//@@ end\n//@@ fn macro:@I@ <@N@ as DoubleEndedIterator>::nth_back\n//@ props C20\n//@ ret\nOption<@T@>\n//@ spec\n    PRE\n        final(self).lo() == old(self).lo(),\n        old(self).lo() + n >= old(self).hi() ==> r is None && final(self).hi() == old(self).lo(),\n        old(self).lo() + n < old(self).hi() ==> r == Some(@ITEM@[old(self).hi() - 1 - n@E@) && final(self).hi() == old(self).hi() - 1 - n,\n//@@ end\n//@@ fn macro:@I@ <@N@ as Iterator>::size_hint\n//@ props C20\n//@ spec\n    requires self.wf(),\n    ensures r.0 == self.hi() - self.lo(), r.1 == Some(r.0),\n//@@ end\n//@@ fn macro:@I@ <@N@ as Iterator>::count nogenerics\n//@ props C20\n//@ spec\n    requires self.wf(),\n    ensures r == self.hi() - self.lo(),\n//@@ end\n//@@ fn macro:@I@ <@N@ as Iterator>::last nogenerics\n//@ props C20\n//@ ret\nOption<@T@>\n//@ spec\n    requires self.wf(),\n    ensures self.lo() >= self.hi() ==> r is None,\n        self.lo() < self.hi() ==> r == Some(@ITEMS@[self.hi() - 1@E@),\n//@@ end\n}\n'
def inst(i, n, life, ty, item, gu, g, post, structs=None, length="vec.len", extra=""):
    k = ("life='a " if life else "") + f"name={n} type={ty} item={item} get_unchecked={gu} get={g}"
    s = f"//@@ macro src/util/general_iter.rs gen_vector_iter_impl 0 {i} {k}\n"
    s += f"//@@ item macro:{structs or ty.lower() + 'structs'} struct {n}\n"
    t = T.replace("PRE", PRE).replace("@L@", "<'a>" if life else "").replace("@U@", "<'a>" if life else "").replace("@N@", n).replace("@I@", i).replace("@T@", item)
    t = re.sub(r"r == Some\(@ITEM@\[(.*?)@E@\)", lambda m: post("old(self).vec", m.group(1)), t)
    t = re.sub(r"r == Some\(@ITEMS@\[(.*?)@E@\)", lambda m: post("self.vec", m.group(1)), t)
    t = t.replace("self.vec.wf() &&", "self.vec.wf() &&" + extra.replace("V", "self.vec")).replace("requires vec.wf(),", "requires vec.wf()" + (", " + extra.replace("V", "vec").replace("&&", "") if extra else "") + ",")
    return s + t.replace("vec.len,", length + ",").replace("vec.len }", length + " }")
def ref(inst, ty, bor, ens):
    """IntoIterator for & and &mut references"""
    o = ""
    for k, (nm, rc) in enumerate((("into_iter_ref", "ref"), ("into_iter_mut", "mut"))):
        e = ens.replace("self", "old(self)").replace("== old(self),", "== old(self),") if rc == "mut" else ens
        q = "self.wf()" if rc == "ref" else "old(self).wf()"
        o += f"//@@ fn macro:{inst} <{ty} as IntoIterator>::into_iter nth={k + 1} as={nm} recv={rc}\n//@ props C20\n//@ generics\n<'a>\n//@ ret\n{bor}<'a>\n//@ spec\n    requires {q},\n    {e}\n//@@ end\n"
    return o
CALLS = """//@@ contains src/util/general_iter.rs macro_rules! gen_vector_iter_impl { ($($life:lifetime, )? $name:ident, $type:ty, $item:ty, $get_unchecked:ident, $get:ident) => {
//@@ contains src/util/general_iter.rs crate::util::gen_vector_iter_impl!($own, $type, $return_type, $get_unchecked, $get); crate::util::gen_vector_iter_impl!('a, $bor, $type, $return_type, $get_unchecked, $get);
//@@ contains src/util/general_iter.rs ($type:ty, $own:ident, $bor:ident) => { impl_vector_iterator! { $type, $own, $bor, get_unchecked, get, u64 } };
//@@ contains src/util/general_iter.rs ($type:ty, $own:ident, $bor:ident, $get_unchecked:ident, $get:ident, $return_type:ty, special) => {
//@@ contains src/util/general_iter.rs ($type:ty, $own:ident, $bor:ident, $get_unchecked:ident, $get:ident, $return_type:ty) => { impl_vector_iterator! { $type, $own, $bor, $get_unchecked, $get, $return_type, special }
//@@ contains src/util/general_iter.rs crate::util::impl_into_iterator_impls!($type, $own, $bor, $return_type);
"""
if __name__ == "__main__":
    out = """use vstd::prelude::*;
use crate::base::*;
use crate::bitvec::*;
use crate::rsvec::*;
verus! {
""" + CALLS
    for ty, own, bor, f in (("BitVec", "BitVecIter", "BitVecRefIter", "src/bit_vec/mod.rs"), ("RsVec", "RsVecIter", "RsVecRefIter", "src/bit_vec/fast_rs_vec/mod.rs")):
        out += f"//@@ contains {f} impl_vector_iterator! {{ {ty}, {own}, {bor} }}\n"
        post = lambda v, i: f"r == Some(b2u({v}@[{i}]))"
        out += f"//@@ macro src/util/general_iter.rs impl_vector_iterator 1 {ty.lower()}structs type={ty} own={own} bor={bor} get_unchecked=get_unchecked get=get return_type=u64\n"
        out += inst(own.lower(), own, False, ty, "u64", "get_unchecked", "get", post)
        out += inst(bor.lower(), bor, True, ty, "u64", "get_unchecked", "get", post)
        out += f"//@@ macro src/util/general_iter.rs impl_vector_iterator 2 {ty.lower()}mk type={ty} own={own} bor={bor} get_unchecked=get_unchecked get=get return_type=u64\n"
        out += f"//@@ macro src/util/general_iter.rs impl_into_iterator_impls 1 {ty.lower()}into type={ty} own={own} bor={bor} element_type=u64\n"
        out += f"""impl {ty} {{
//@@ fn macro:{ty.lower()}mk {ty}::iter
//@ props C20
//@ spec
    requires self.wf(),
    ensures r.wf(), r.vec == self, r.lo() == 0, r.hi() == self.len,
//@@ end
//@@ fn macro:{ty.lower()}into <{ty} as IntoIterator>::into_iter as=into_iter_own
//@ props C20
//@ ret
{own}
//@ spec
    requires self.wf(),
    ensures r.wf(), r.vec == self, r.lo() == 0, r.hi() == self.len,
//@@ end
""" + ref(f"{ty.lower()}into", ty, bor, "ensures r.wf(), *r.vec == *self, r.lo() == 0, r.hi() == self.len,") + "}\n"
    out += "} // verus!\n"
    open(f"{V}/proofs/elemiter.rs", "w").write(out)

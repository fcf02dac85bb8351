#!/usr/bin/env python3
# integer conversion instances for the prelude
ints={'u8':8,'u16':16,'u32':32,'u64':64,'u128':128,'usize':64,'i32':-32,'i64':-64,'i128':-128}
def rng(t):
    b=ints[t]
    return (0,2**b-1) if b>0 else (-2**(-b-1),2**(-b-1)-1)
out=["// generated by gen_prelude.py: lossless Into, checked TryInto"]
pairs_into=[]
for a in ints:
    for b in ints:
        la,ha=rng(a);lb,hb=rng(b)
        if lb<=la and ha<=hb and a not in('usize',) and not (b=='usize' and a not in('u8','u16','usize')):
            if b=='usize' and a=='usize': continue
            pairs_into.append((a,b))
for a,b in pairs_into:
    out.append(f"impl VxInto<{b}> for {a} {{ open spec fn vx_into_req(self) -> bool {{ true }} open spec fn vx_into_post(self, r: {b}) -> bool {{ r == self }} fn vx_into(self) -> (r: {b}) {{ self as {b} }} }}")
for a in ints:
    for b in ints:
        la,ha=rng(a);lb,hb=rng(b)
        conds=[]
        if lb>la: conds.append(f"{b}::MIN <= self")
        if hb<ha: conds.append(f"self <= {b}::MAX")
        c=" && ".join(conds) or "true"
        out.append(f"impl VxTryInto<{b}> for {a} {{ open spec fn vx_fits(self) -> bool {{ {b}::MIN <= self <= {b}::MAX }} open spec fn vx_conv(self) -> {b} {{ self as {b} }} fn vx_try_into(self) -> (r: Result<{b}, VxErr>) {{ if VX_COND {{ Ok(self as {b}) }} else {{ Err(VxErr) }} }} }}".replace("VX_COND", c.replace(f"{b}::MIN <= self", (f"0 <= self" if lb==0 else f"({lb}{a if lb>=rng(a)[0] else ''}) <= self")).replace(f"self <= {b}::MAX", f"self <= {hb}{a}")))
open(__file__.replace('gen_prelude.py','ints.rs'),'w').write("\n".join(out)+"\n")

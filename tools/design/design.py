import json,os,re
V='/verif'
per={
'C01':('limb-level abstract run of all 16 `Add`/`AddAssign` forms per field; result residue polynomial = a+b','a+b in F_p'),
'C02':('the same for 13 `Sub`/`SubAssign` forms','a-b in F_p'),
'C03':('the same for `Neg`','-a in F_p'),
'C04':('the same for 16 `Mul`/`MulAssign` forms; products of digits with their floor symbols, compared modulo p','ab in F_p'),
'C05':('the same for `square`/`squared`','a^2 in F_p; a*a for the same abstract operand'),
'C06':('the same for the small add/sub operations, the integer being a symbol in [-2^31, 2^31)','a+-i'),
'C07':('the same for small multiplication; the integer is a symbol of full range, so i32::MIN is included','a*i'),
'C08':('every operator form found in the type-checked crate is reduced, through summaries of the forms it calls, to the same polynomial','the operation of the trait'),
'C09':('canonical form by bound back-substitution: result = V - p*floor symbol, ranges of the symbols by case analysis on the top carries (`canon.py`, `Ctx.vanishes`); limbs in [0,2^w), top limb in its range, value in [0,p); idempotence','unique representative'),
'C10':('the returned boolean is a conjunction of limb comparisons of two canonical values covering every limb','equality of canonical limbs'),
'C11':('every operation analysed on all elements within the representation bound; obligations: each `Assert` terminator, shift amount, lost bits of `<<`, index, explicit panic; and result within the bound (induction)','type ranges; the bound itself'),
'C12':('every output byte is an 8-bit slice of the canonical value at position 8i; `packed` and `pack` through summaries','base-256 digits'),
'C13':('`unpack` on symbolic bytes: limb j = bytes slice at wj; composition pack/unpack on one abstract value','little-endian value'),
'C14':('effect log of the buffer: set of bytes read, set written, on a buffer of symbolic length >= n','exactly [0,n)'),
'C15':('effect log of the formatter at digit level: 2n digits, case, order; error returned when the sink fails','hex digits of canonical value'),
'C16':('addition chains as monomials x^e; e = p-2 modulo p-1 (0 -> 0 handled by exponent > 0)','x^(p-2)'),
'C17':('the same, exponent (p-1)/2','x^((p-1)/2)'),
'C18':('polynomials over F_p modulo the identities of the case p mod 4/8 with s^2 the argument and chi = +-1 characters; selection masks as 0/1 unknowns','(result)^2 = s^2'),
'C19':('the index is enumerated over every i < nbits; the result is bit i of the canonical value','binary digit'),
'C20':('masks as constant limbs; bitwise operators on canonical limbs; normalising forms must act on canonical operands','identity / zero'),
'C21':('constants as the compiler evaluates them, all exported constants, against exact arithmetic and their own documentation','the documented value'),
'C22':('constants compared with published parameters (`params.py`), and independently: curve equation, order prime (Miller-Rabin, 40 bases), Hasse interval, order*base = identity','published curves + exact arithmetic'),
'C23':('`zero`/`init` give X,Y,Z,T with T Z = X Y, the given x, y, and Z != 0','definition'),
'C24':('four coordinate polynomials of the result against the addition law cross-multiplied, modulo the curve equations of both operands; TZ=XY','complete Edwards addition law'),
'C25':('the same for doubling and tripling','law applied once/twice'),
'C26':('ladder in a group-level domain (point = formal multiple of P and of the scalar bits), one iteration unrolled per bit with the bits symbolic 0/1; every bit read exactly with its weight','k*P with k canonical'),
'C27':('secret-taint of MIR values: operands of SwitchInt, Assert, indices, pointer offsets, division, trip counts','no secret operand'),
'C28':('draws are symbols; result canonical and digits reach contiguously from 0 to at least p-1','every residue reachable'),
'C29':('queries on the type-checked crate: visibility of fields, tuple constructors, `unsafe`, statics, interior mutability, hidden effects in callees, `Copy`/ownership, by-reference operands unchanged (abstract run)','rules'),
'C30':('impl wiring curve -> scalar field, `d_val()` = published constant, d non-square by exact arithmetic','wiring table'),
'C31':('value form analysed with the in-place form opaque (summary), equality of results; source unchanged','in-place form'),
'C32':('loops must have trip counts fixed by the field (the abstract run terminates with decided or joined exits), call graph acyclic, no allocator reachable','rules'),
'C33':('disassembly of the optimised build of every public operation (`machine/roots.rs`, 496 entry points): abstract interpretation of the machine code with known integers, pointers, PUB, SEC','no jump, address, length or divisor is SEC'),
'C34':('positional independence of the draws (coefficients 1, N1, N1*N2, ... modulo p up to sign); exact distance r(p-r)/(pN)','<= 2^-64'),
'C36':('pack, unpack and bit access on every buffer shorter than the packed size and every index beyond the bit count: the states at each panic','the call panics (a bit index may read as false); residue unchanged or within the carry bound; no secret among the arguments of the panic'),
'C37':('Debug::fmt, log of what reaches the sink','name, limbs in order as plain hexadecimal; each write error reported'),
'C35':('the MIR of powerpc (32-bit, big-endian), aarch64 and x86-64-v4 builds, standard library checked from source','the specifications of C01-C32, minus what fails on the host; equal interfaces and constants'),
}
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
seeds=[]
for d in sorted(os.listdir(V+'/seeded')):
    m=json.load(open('%s/seeded/%s/meta.json'%(V,d))); seeds.append((d,m['property'],m['what_it_breaks']))
o=open('/tmp/design_head.md').read()
o+='\n## 5. Properties\n\n| | property | what is analysed | oracle |\n|---|---|---|---|\n'
for p in props:
    a,b=per[p['id']]; o+='| %s | %s | %s | %s |\n'%(p['id'],p['title'],a,b)
o+=open('/tmp/design_mid.md').read()
o+='\n| planted change | caught by | what it breaks |\n|---|---|---|\n'
for s in seeds: o+='| %s | %s | %s |\n'%s
o+=open('/tmp/design_tail.md').read()
open(V+'/DESIGN.md','w').write(o)

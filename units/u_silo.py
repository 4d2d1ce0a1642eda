"""Contracts of silo.c"""
UNITS = {
'silo_name': dict(harness='silo.c', src=['silo.c'], defs=['-DH_NAME'], functions=['Silo_Filename'], detach=['numpart'],
    proof=dict(unwind=26), bounded=dict(unwind=26, bound='silo numbers below 25600'),
    assumes=['silo.basename prints the number (checked with fmtcheck(3) when the configuration is read)']),
'silo_part': dict(harness='silo.c', src=['silo.c'], defs=['-DH_PART'], functions=['numpart'], detach=['numpart'], solver=['--cvc5'],
    proof=dict(unwind=26), bounded=dict(unwind=26, solver=[], defs=['-UH_PART', '-DH_NAME'], bound='silo numbers below 25600')),
'silo_lemma': dict(lean='lemmas/SiloPath.lean', functions=[], src=[]),
'silo_iter': dict(harness='silo.c', src=['silo.c'], defs=['-DH_ITER'], functions=['Silo_Iter'],
    detach=['numpart', 'Silo_Filename'], detach_all=['numpart', 'Silo_Filename'],
    loops={'Silo_Iter': {'n': 1, 0: dict(havoc=['g', 'nm'], setp={'vsb': '(struct vsb *)vs'}, inv=[
        'u == 0 ? (g.next == 0 && g.dir == 0) : (g.next == u - 1 && g.dir == 2)',
        '!g.need', 'g.ended == 0', '(retval == 0 && g.stopped == 0) || (retval == 1 && g.stopped == 1)']) }},
    proof=dict(unwind=4), bounded=dict(unwind=6, bound='5 silos')),
}

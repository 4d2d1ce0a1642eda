"""Contracts of main_audit.c"""
def a(name, d, fns, **kw):
    u = dict(harness='audit.c', src=['main_audit.c'], defs=['-DH_' + d], functions=fns, detach=['audit_report'], detach_all=['audit_report'],
             assumes=['digests and identifiers are compared as the 64 digits they are', 'contract of Ident_Create: units ident_*'],
             proof=dict(unwind=70), bounded=dict(unwind=70, bound='none needed: loop free'))
    u.update(kw)
    return {name: u}
UNITS = {}
UNITS.update(a('audit_one', 'ONE', ['audit_one', 'audit_check_ident', 'audit_check_header', 'audit_check_digest_header']))
UNITS.update(a('audit_final', 'FINAL', ['audit_final_pending', 'audit_check_header', 'audit_check_digest_header']))
UNITS.update(a('audit_silo', 'SILO', ['audit_silo', 'audit_iter'], detach=['audit_report', 'audit_one'], detach_all=['audit_report', 'audit_one'],
    assumes=['contracts of Rsilo_*: units rs_*'], loops={'audit_silo': {'n': 1, 0: dict(havoc=['g'], inv=['invs(ngood, tgood, tbad, rs)'], heap=['ap'])}},
    proof=dict(unwind=70), bounded=dict(unwind=70, unwindset=['audit_silo.0:5'], bound='silos of at most 3 records')))
UNITS.update(a('audit_add', 'ADD', ['audit_add_one_segment', 'audit_iter'], assumes=['contracts of Rsilo_*: units rs_*']))
UNITS.update(a('audit_pending', 'PEND', ['audit_one_pending'], detach=['audit_report', 'audit_final_pending', 'audit_add_one_segment'], detach_all=['audit_report', 'audit_final_pending', 'audit_add_one_segment'],
    loops={'audit_one_pending': {'n': 3, 0: dict(setp={'ap0': 'vf_first()', 'segment_list': 'segment_list'}, inv=['inv1st(ap0)']),
        1: dict(dec='vf_len_()', setp={'ap': 'vf_do()', 'segment_list': 'segment_list'}, heap=['origin', 'apn'], inv=['invdo(ap)']),
        2: dict(setp={'ap': 'vf_ap()', 'apn': 'vf_apn()', 'segment_list': 'segment_list'}, heap=['origin', 'apn'], inv=['invin(apn, ap, ap1)'])}},
    bounded=dict(unwind=70, bound='21 arrangements of at most three segments and a segment of another object')))
M = ['audit_report', 'audit_silo', 'audit_one_pending']
UNITS.update(a('audit_main', 'MAIN', ['main_audit'], detach=M, detach_all=M, assumes=['contract of Silo_Iter: unit silo_iter'],
    loops={'main_audit': {'n': 4, 1: dict(dec='argc', setp={'argv': 'vf_argv()', 'argc': 'vf_argc()'}, havoc=['g'], heap=[], inv=['inva(argc, argv)']),
        2: dict(havoc=['g'], inv=['invp()']), 3: dict(dec='vf_leftn()', setp={'ap': 'vf_left()', 'segment_list': 'segment_list'}, havoc=['g'], inv=['invl(ap)'])}},
    bounded=dict(unwind=6, unwindset=['setup.0:70', 'main_audit.0:2'], bound='at most two silos named, two segmented objects and two leftover segments')))

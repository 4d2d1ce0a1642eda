"""Contracts of main_reindex.c"""
def r(name, d, fns, **kw):
    u = dict(harness='reindex.c', src=['main_reindex.c'], defs=['-DH_' + d], functions=fns,
             assumes=['contracts of Rsilo_*: units rs_*; of Header_*: units hdr_*; of IDX_Insert: unit idx_insert'],
             proof=dict(unwind=30), bounded=dict(unwind=30, bound='none needed: loop free'))
    u.update(kw)
    return {name: u}
UNITS = {}
UNITS.update(r('ri_silo', 'SILO', ['silo_iter'], detach=['got_seg'], detach_all=['got_seg'],
    loops={'silo_iter': {'n': 1, 0: dict(havoc=['g'], inv=['invr(rs, silono)'])}}, bounded=dict(unwind=30, unwindset=['silo_iter.0:5'], bound='silos of at most three records')))
UNITS.update(r('ri_seg', 'SEG', ['got_seg', 'try_seg', 'emit_seg', 'drop_seg'], bounded=dict(unwind=30, bound='18 orders in which up to six segments of three objects can be met')))
del UNITS['ri_seg']['proof']
D = ['silo_iter', 'reindex_iter', 'dump_left']
UNITS.update(r('ri_main', 'MAIN', ['main_reindex'], detach=D, detach_all=D, bounded=dict(unwind=8, unwindset=['main_reindex.0:2'], bound='at most two silos named'),
    loops={'main_reindex': {'n': 2, 1: dict(dec='argc', setp={'argv': 'vf_argv()', 'argc': 'vf_argc()'}, havoc=['g'], heap=['argv'], inv=['invm(argc, argv, retval)'])}}))
UNITS.update(r('ri_left', 'REI', ['reindex_iter', 'drop_seg'], bounded=dict(unwind=30, unwindset=['reindex_iter.0:4'], bound='two segments left'),
    loops={'reindex_iter': {'n': 1, 0: dict(setp={'seg': 'vf_at()'}, heap=['segs', 'seg'], inv=['invi(seg)'], mark='t_w1')}}))

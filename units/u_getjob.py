"""Contracts of getjob.c"""
def j(name, h, fns, **kw):
    d = dict(harness='getjob.c', src=['getjob.c'], defs=['-D' + h], functions=fns, assumes=['contracts of Rsilo_*: units rs_*; of Header_*: units hdr_*; of IDX_Iter: unit idx_iter'],
             proof=dict(unwind=30), bounded=dict(unwind=30, bound='none needed: loop free'))
    d.update(kw)
    return {name: d}
UNITS = {}
UNITS.update(j('gj_iter', 'H_ITER', ['getjob_iter'], proof=dict(unwind=70), bounded=dict(unwind=70, bound='none needed: identifier sizes end at 64'), assumes=['segment records have both index flags and headers of segments']))
UNITS.update(j('gj_new', 'H_NEW', ['GetJob_New'], detach=['GetJob_Delete'], detach_all=['GetJob_Delete'],
    loops={'GetJob_New': {'n': 1, 0: dict(setp={'gj': 'vf_gj()', 'nid': 'g.key', 'gjs': 'NULL'}, heap=['gj'], inv=['invn(gj, nid)'])}},
    bounded=dict(unwind=30, bound='at most three segments')))
W = dict(dec='t_n - g.k', setp={'gjs': 'vf_win()'}, heap=['gj'], inv=['inv(gj, gjs)'])
UNITS.update(j('gj_deliver', 'H_DELIVER', ['GetJob_Iter'], loops={'GetJob_Iter': {'n': 2, 0: W, 1: W}}, bounded=dict(unwind=30, bound='one or two segments')))
UNITS.update(j('gj_total', 'H_TOTAL', ['GetJob_TotalLength', 'GetJob_IsSegmented', 'GetJob_Header'],
    loops={'GetJob_TotalLength': {'n': 1, 0: dict(dec='t_n - g.k', setp={'gjs': 'vf_win()'}, heap=['gj'], inv=['invsum(gj, gjs, sum, gzip)'])}}, bounded=dict(unwind=30, bound='one or two segments')))
UNITS.update(j('gj_headers', 'H_HEADERS', ['GetJob_Headers'], proof=dict(unwind=30, defs=['-DT2']), bounded=dict(unwind=30, bound='none needed: loop free')))
UNITS.update(j('gj_delete', 'H_DEL', ['GetJob_Delete'],
    loops={'GetJob_Delete': {'n': 1, 0: dict(dec='t_n - g.k', setp={'gj': 'vf_del()', 'gjs': 'NULL'}, heap=['gj', 'gjs'], inv=['invd(gj)'])}}, bounded=dict(unwind=30, bound='one or two segments')))

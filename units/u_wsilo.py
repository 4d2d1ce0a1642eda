"""Contracts of wsilo.c"""
A = ['file system calls (stat, open, writev, pwrite, link, unlink, mmap, lseek) behave as POSIX specifies on local files']
def w(name, h, fns, defs=[], **kw):
    d = dict(harness='wsilo.c', src=['wsilo.c'], defs=['-D' + h] + defs, functions=fns, assumes=A,
             proof=dict(unwind=8), bounded=dict(unwind=8, bound='none needed: loop free'))
    d.update(kw)
    return {name: d}
LOUD = ['-DIOERR', '-DVF_LOUD_OK']
UNITS = {}
UNITS.update(w('ws_space', 'H_SPACE', ['Wsilo_GetSpace', 'Wsilo_Store']))
UNITS.update(w('ws_space_io', 'H_SPACE', ['Wsilo_GetSpace', 'Wsilo_Store'], LOUD))
UNITS.update(w('ws_append', 'H_APPEND', ['silo_attempt_append']))
UNITS.update(w('ws_append_io', 'H_APPEND', ['silo_attempt_append'], LOUD))
UNITS.update(w('ws_install', 'H_INSTALL', ['Wsilo_Install'], detach=['wsilo_delete'], detach_all=['wsilo_delete']))
UNITS.update(w('ws_install_io', 'H_INSTALL', ['Wsilo_Install'], LOUD, detach=['wsilo_delete'], detach_all=['wsilo_delete']))
CM = dict(detach=['wsilo_delete', 'silo_attempt_append', 'Wsilo_Install'], detach_all=['wsilo_delete', 'silo_attempt_append', 'Wsilo_Install'],
    loops={'Wsilo_Commit': {'n': 1, 0: dict(havoc=['g'], inv=[
        'g.ins == 0 && g.att_ok == 0 && g.att_stop == 0 && g.linked == 0 && g.pw == 0 && g.unl_hold == 0 && g.hset == 0 && g.seq == 0',
        'done == 0', 'g.written_len == (int64_t)sl->hd_len - hdvsb[1].s_len - 1'])}},
    proof=dict(unwind=24), bounded=dict(unwind=24, bound='at most 23 candidate silos, 12 bytes of header padding'))
UNITS.update(w('ws_commit', 'H_COMMIT', ['Wsilo_Commit'], **CM))
UNITS.update(w('ws_commit_io', 'H_COMMIT', ['Wsilo_Commit'], LOUD, **CM))
UNITS.update(w('ws_abandon', 'H_DELETE', ['Wsilo_Abandon', 'wsilo_delete']))
UNITS.update(w('ws_new', 'H_NEW', ['Wsilo_New'], detach=['silo_mkparentdir'], detach_all=['silo_mkparentdir']))
for n, h, f in (('ws_header', 'H_HEADER', ['Wsilo_Header', 'Wsilo_GetSpace', 'Wsilo_Store']), ('ws_finish', 'H_FINISH', ['Wsilo_Finish'])):
    UNITS.update(w(n, h, f, harness='wsilo2.c', proof=dict(unwind=18), bounded=dict(unwind=18, bound='none needed: loop free'), assumes=['contract of Header_Serialize and Gzip_Vsb: the same header fields and lengths give the same length']))
UNITS.update(w('ws_next', 'H_NEXT', ['Wsilo_Next'], harness='wsilo2.c', assumes=['contract of Wsilo_New: unit ws_new', 'no more than 2^32 silos'], detach=['Wsilo_New'], detach_all=['Wsilo_New'],
    loops={'Wsilo_Next': {'n': 1, 0: dict(havoc=['g'], inv=['inv(aa, silono)'])}},
    bounded=dict(unwind=8, bound='at most 5 silos tried')))
UNITS['mkparent'] = dict(harness='mkdir.c', src=['wsilo.c'], functions=['silo_mkparentdir'], detach=['silo_mkparentdir'], detach_all=['silo_mkparentdir'], assumes=A, proof=dict(unwind=3), bounded=dict(unwind=3, bound='none needed: loop free'))
UNITS['warcinfo'] = dict(harness='warcinfo.c', src=['warcinfo.c'], functions=['Warcinfo_New'], defs=['-DVF_LOUD_OK'],
    assumes=['contracts of VSB, Header_*, Gzip_Vsb, Config_Iter and the digest library'],
    proof=dict(unwind=30), bounded=dict(unwind=30, bound='none needed: loop free'))

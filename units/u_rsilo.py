"""Contracts of rsilo.c"""
Z = ['zlib: inflate consumes and produces data in order and reports the end of the gzip member', 'read(2) and lseek(2) behave as POSIX specifies']
def r(name, h, fns, **kw):
    d = dict(harness='rsilo.c', src=['rsilo.c'], defs=['-D' + h, '-DVF_LOUD_OK', '-DIOERR'] + (['-DPS=64'] if h in ('H_GZ', 'H_CHUNK') else []), functions=fns, assumes=Z,
             proof=dict(unwind=26), bounded=dict(unwind=26, bound='none needed: loop free'))
    d.update(kw)
    return {name: d}
UNITS = {}
UNITS.update(r('rs_open', 'H_OPEN', ['Rsilo_Open', 'Rsilo_Close', 'Rsilo_Tell', 'rsilo_open_fn', 'rsilo_seek']))
UNITS.update(r('rs_head', 'H_HEAD', ['Rsilo_ReadHeader', 'Rsilo_BodyLen', 'Rsilo_NextHeader']))
UNITS.update(r('rs_gz', 'H_GZ', ['Rsilo_ReadGZChunk'], loops={'Rsilo_ReadGZChunk': {'n': 1, 0: dict(dec='rs->silo_bodylen', havoc=['g', 'rs->silo_bodylen'], heap=['rs'], inv=['invg(rs, ll, sz)'])}},
    bounded=dict(unwind=6, bound='at most 4 reads')))
UNITS.update(r('rs_chunk', 'H_CHUNK', ['Rsilo_ReadChunk'], loops={'Rsilo_ReadChunk': {'n': 1, 0: dict(havoc=['g'], setp={'zs[0]': 'vf_zs()'}, heap=['zs'], inv=['invc(rs)', 'invz(zs)'])}},
    bounded=dict(unwind=6, bound='at most 4 reads')))
UNITS.update(r('rs_crnl', 'H_CRNL', ['Rsilo_SkipCRNL']))

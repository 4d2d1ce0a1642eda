"""Contracts of ident.c"""
UNITS = {}
for i, t in enumerate(('resource', 'continuation', 'warcinfo')):
    UNITS['ident_' + t] = dict(harness='ident.c', src=['ident.c'], functions=['Ident_Create'], defs=['-DH_CREATE', '-DTYPE=%d' % i],
        assumes=['a digest is 64 characters'], proof=dict(unwind=67), bounded=dict(unwind=67, bound='none needed: loops bounded by the format'))
for l in (77,):
    UNITS['ident_metadata'] = dict(harness='ident.c', src=['ident.c'], functions=['Ident_Create'], defs=['-DH_CREATE', '-DTYPE=3', '-DREFLEN=%d' % l],
        assumes=['a digest is 64 characters', 'SHA256_* hash the bytes they are given'], proof=dict(unwind=67), bounded=dict(unwind=80, bound='reference of %d characters' % l))
UNITS['ident_set'] = dict(harness='ident.c', src=['ident.c'], functions=['Ident_Set'], defs=['-DH_SET'], detach=['Ident_Create'], detach_all=['Ident_Create'],
    assumes=[], proof=dict(unwind=5), bounded=dict(unwind=5, bound='none needed: loop free'))

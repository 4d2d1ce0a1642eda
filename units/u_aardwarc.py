"""Contracts of aardwarc.c"""
UNITS = {
'cfg_new': dict(harness='aardwarc.c', src=['aardwarc.c'], defs=['-DH_NEW'], functions=['AardWARC_New'],
    assumes=['Config_Get: unit cfg_get', 'VNUM_2bytes converts numbers', 'strings of three characters stand for those of any length', 'fmtcheck(3) accepts exactly what prints one number'],
    proof=dict(unwind=30), bounded=dict(unwind=30, bound='none needed: loop free')),
'cache': dict(harness='aardwarc.c', src=['aardwarc.c'], defs=['-DH_CACHE'], functions=['AardWARC_ReadCache', 'AardWARC_WriteCache'],
    assumes=['read(2) and write(2) of eight bytes'], proof=dict(unwind=12), bounded=dict(unwind=12, bound='none needed: loop free')),
}

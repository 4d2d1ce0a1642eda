"""Contracts of segjob.c"""
Z = ['zlib: deflate consumes input in order; it leaves output space unused only when everything asked for was flushed; Z_FINISH after a complete Z_SYNC_FLUSH adds 10 bytes; it never holds back more than 256 kB',
     'libmd: SHA256_* compute the digest of the bytes they are given',
     'contracts of Wsilo_GetSpace and Wsilo_Store, discharged in unit ws_space',
     'silo.max_size leaves at least 24 bytes after the headers of a segment']
UNITS = {
'seg_feed': dict(harness='segjob.c', src=['segjob.c'], defs=['-DH_FEED', '-DVF_LOUD_OK'],
    functions=['SegJob_Feed', 'segjob_setup_outbuf', 'segjob_deflate'],
    detach=['segjob_newseg', 'segjob_finishseg'], detach_all=['segjob_newseg', 'segjob_finishseg'],
    loops={'SegJob_Feed': {'n': 1, 0: dict(havoc=["g", "*sj", "*psegm"], heap=['sj', 'sg'], inv=['inv(sj, ilen, ip)', 'inv2()'])}},
    assumes=Z, proof=dict(unwind=3), bounded=dict(unwind=4, bound='objects of 300 bytes, at most 3 deflate calls')),
'seg_life': dict(harness='segjob2.c', src=['segjob.c'], defs=['-DH_LIFE', '-DNO_FEED'],
    functions=['segjob_newseg', 'segjob_finishseg'],
    assumes=['libmd digests', 'deflate compresses at most 1032:1', 'silo.max_size below 2^50 bytes'],
    proof=dict(unwind=30), bounded=dict(unwind=30, bound='none needed: loop free')),
'seg_new': dict(harness='segjob2.c', src=['segjob.c'], defs=['-DH_SNEW', '-DNO_FEED', '-DVF_LOUD_OK'],
    functions=['SegJob_New'], assumes=[], proof=dict(unwind=30), bounded=dict(unwind=30, bound='none needed: loop free')),
'seg_destroy': dict(harness='segjob2.c', src=['segjob.c'], defs=['-DH_DESTROY', '-DNO_FEED'],
    functions=['segjob_destroy'], assumes=[], loops={'segjob_destroy': {'n': 1, 0: dict(setp={'sg': 'vf_list(sj)'}, heap=['sg', 'sj'], inv=['invd(sj)'])}},
    proof=dict(unwind=4), bounded=dict(unwind=4, bound='two segments')),
'seg_commit': dict(harness='segjob2.c', src=['segjob.c'], defs=['-DH_COMMIT'], functions=['SegJob_Commit'],
    detach=['SegJob_Feed', 'segjob_destroy'], detach_all=['SegJob_Feed', 'segjob_destroy'],
    loops={'SegJob_Commit': {'n': 1, 0: dict(setp={'sg': 'vf_win(sj)'}, havoc=[], heap=['sg', 'sj'], inv=['inv(sj, sg)'])}},
    assumes=['contract of Ident_Set: unit ident_set', 'the final length of the object is at most what the last segment reserved space for (unit seg_life)'],
    proof=dict(unwind=30), bounded=dict(unwind=30, bound='objects of one or two segments')),
}

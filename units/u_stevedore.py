"""Contracts of main_stevedore.c"""
_A = ['write(2) on a blocking pipe writes everything', 'the peer sends messages of the protocol (identifiers of 16 to 64 characters, references of at most 1024)']
UNITS = {
'stv_input': dict(harness='stevedore.c', src=['main_stevedore.c'], defs=['-DH_INPUT'], functions=['input'], detach=['start_filter', 'start_store', 'start_meta', 'job_start'], detach_all=['start_filter', 'start_store', 'start_meta', 'job_start'],
    assumes=_A + ['contract of proto_in: unit proto_frame; of start_filter, start_store, start_meta: units stv_filter, stv_lines'],
    loops={'input': {'n': 5,
        0: dict(dec='(long long)size - j', havoc=['g'], setp={'fp': 'vf_fp()'}, inv=['invf(j)']),
        1: dict(dec='size', havoc=['g'], inv=['invd(size)']),
        4: dict(dec='size', havoc=['g'], inv=['invx(size)'])}},
    proof=dict(unwind=6), bounded=dict(unwind=4, bound='messages of at most 64 bytes, two reads')),
'stv_meta': dict(harness='stevedore.c', src=['main_stevedore.c'], defs=['-DH_INPUT', '-DH_META=1'], functions=['input'], detach=['start_filter', 'start_store', 'start_meta', 'job_start'], detach_all=['start_filter', 'start_store', 'start_meta', 'job_start'],
    assumes=_A + ['contract of proto_in: unit proto_frame; of start_filter, start_store, start_meta: units stv_filter, stv_lines'],
    loops={'input': {'n': 5,
        3: dict(dec='size', havoc=['g'], inv=['invd(size)']),
}},
    proof=dict(unwind=6), bounded=dict(unwind=4, bound='messages of at most 64 bytes, two reads')),
'stv_ref': dict(harness='stevedore.c', src=['main_stevedore.c'], defs=['-DH_INPUT', '-DH_META=0'], functions=['input'], detach=['start_filter', 'start_store', 'start_meta', 'job_start'], detach_all=['start_filter', 'start_store', 'start_meta', 'job_start'],
    assumes=_A + ['contract of proto_in: unit proto_frame; of start_filter, start_store, start_meta: units stv_filter, stv_lines'],
    loops={'input': {'n': 5,
        2: dict(dec='(long long)size - j', havoc=['g'], setp={'j': 'vf_j(buf)'}, inv=['invm(j, buf)']),
}},
    proof=dict(unwind=6), bounded=dict(unwind=4, bound='messages of at most 64 bytes, two reads')),
'stv_filter': dict(harness='stevedore.c', src=['main_stevedore.c'], defs=['-DH_FILTER'], functions=['start_filter'], detach=['job_start'], detach_all=['job_start'],
    assumes=_A + ['contract of job_start: unit stv_start'],
    loops={'start_filter': {'n': 2,
        0: dict(heap=['f'], setp={'f': 'vf_q0()'}, inv=['invq0()']),
        1: dict(heap=['f'], setp={'f': 'vf_q1()', 'n': 'vf_n()'}, inv=['invq1(n)'])}},
    proof=dict(unwind=68), bounded=dict(unwind=8, bound='queues of two, texts of four characters')),
'stv_lines': dict(harness='stevedore.c', src=['main_stevedore.c'], defs=['-DH_LINES'], functions=['filter_end', 'store_line', 'store_end', 'start_store', 'meta_line', 'meta_end', 'start_meta'],
    detach=['job_start', 'start_filter', 'job_end'], detach_all=['job_start', 'start_filter', 'job_end'],
    assumes=['contracts of job_start, job_end: units stv_start, stv_end', 'identifiers of up to five characters stand for all'], proof=dict(unwind=18), bounded=dict(unwind=18, bound='none needed: loop free')),
'stv_end': dict(harness='stevedore.c', src=['main_stevedore.c'], defs=['-DH_LINES', '-DH_END', '-DVF_LOUD_OK'], functions=['job_end'],
    detach=['job_start', 'start_filter'], detach_all=['job_start', 'start_filter'],
    assumes=['wait4(2)'], proof=dict(unwind=18), bounded=dict(unwind=18, bound='none needed: loop free')),
'stv_start': dict(harness='stevedore.c', src=['main_stevedore.c'], defs=['-DH_START', '-DVF_LOUD_OK'], functions=['job_start', 'job_ev', 'filter_line'],
    assumes=['fork(2), pipe(2), dup2(2)', 'contract of VLU_Fd: units vlu_*'], proof=dict(unwind=68, unwindset=['job_start.0:6']), bounded=dict(unwind=68, unwindset=['job_start.0:6'], bound='three arguments')),
}

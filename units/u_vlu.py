"""Contracts of vlu.c and proto.c"""
UNITS = {
'vlu_line': dict(harness='vlu.c', src=['vlu.c'], defs=['-DH_LINE'], functions=['LineUpProcess'], assumes=['no NUL bytes in text', 'strchr(3), memmove(3)'],
    loops={'LineUpProcess': {'n': 2, 0: dict(dec='t_n + 1 - (p - bufm)', setp={'p': 'vf_o()'}, heap=['p', 'q', 'l'], inv=['invo(p)']), 1: dict(dec='t_n - (q - bufm)', setp={'q': 'vf_i(p)'}, inv=['invi(p, q)'])}},
    proof=dict(unwind=3)),
'vlu_fd': dict(harness='vlu.c', src=['vlu.c'], defs=['-DH_FD'], functions=['VLU_New', 'VLU_Fd', 'VLU_Destroy'], detach=['LineUpProcess'], detach_all=['LineUpProcess'],
    assumes=['lines fit the buffer', 'contract of LineUpProcess: unit vlu_line'], proof=dict(unwind=4), bounded=dict(unwind=4, bound='none needed: loop free')),
'vlu_all': dict(harness='vlu.c', src=['vlu.c'], defs=['-DH_ALL'], functions=['VLU_Fd', 'LineUpProcess'], bounded=dict(unwind=9, bound='streams of at most 5 bytes')),
}
UNITS['proto_frame'] = dict(harness='proto.c', src=['proto.c'], functions=['proto_out', 'proto_in'], assumes=['messages of less than 4 GB; writev(2) on a blocking descriptor writes everything'],
    proof=dict(unwind=7), bounded=dict(unwind=7, bound='none needed: bounded by the format'))

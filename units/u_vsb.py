"""Contracts of vsb.c"""
STD = ['--no-standard-checks']
M = ['--no-standard-checks', '--bounds-check', '--pointer-check']
UNITS = {
'vsb_cat': dict(harness='vsb.c', src=['vsb.c'], defs=['-DH_CAT'], functions=['VSB_cat'], detach=['VSB_put_byte'], detach_all=['VSB_put_byte'], assumes=['contract of VSB_put_byte: unit vsb_putc'], checks=M,
    loops={'VSB_cat': {'n': 1, 0: dict(setp={'str': 'vf_str(s)'}, heap=['str'], inv=['invcat(s, str)'])}},
    proof=dict(unwind=3), bounded=dict(unwind=8, bound='strings of 5 characters')),
'vsb_life': dict(harness='vsb.c', src=['vsb.c'], defs=['-DH_LIFE'], functions=['VSB_new', 'VSB_newbuf', 'VSB_finish', 'VSB_data', 'VSB_len', 'VSB_error', 'VSB_clear', 'VSB_delete', 'VSB_destroy'],
    assumes=['malloc(3) and free(3) do what their manuals say'], checks=M, proof=dict(unwind=12), bounded=dict(unwind=12, bound='buffers of 40 bytes')),
}

for i, n, f in ((0, 'vsb_putc', ['VSB_putc', 'VSB_put_byte']), (1, 'vsb_bcat', ['VSB_bcat']), (2, 'vsb_printf', ['VSB_printf', 'VSB_vprintf'])):
    UNITS[n] = dict(harness='vsb.c', src=['vsb.c'], defs=['-DH_APPEND', '-DOP=%d' % i], functions=f + ['VSB_extend', 'VSB_extendsize'],
    assumes=['vsnprintf(3), realloc(3), memcpy(3) do what their manuals say', 'strings of less than 2^40 bytes'] + (['memory does not run out'] if i == 2 else []), checks=M if i < 2 else STD,
    proof=dict(unwind=12, unwindset=['VSB_vprintf.0:3']), bounded=dict(unwind=12, unwindset=['VSB_vprintf.0:3'], bound='buffers of 40 bytes'))

"""Contracts of the commands"""
UNITS = {
'store': dict(harness='store.c', src=['main_store.c'], functions=['main_store', 'mime_type'],
    loops={'main_store': {'n': 2,
        0: dict(setp={'wt': 'vf_wt(0)', 'mt': 'vf_pick(0)', 'i_arg': 'vf_pick(1)', 'r_arg': 'vf_pick(2)'}, inv=['inv0(wt, mt, i_arg, r_arg)']),
        1: dict(havoc=['g'], inv=['inv1(rlen, ibuf_ptr, fd)'])}},
    assumes=['read(2) and getopt(3) behave as documented', 'contracts of SegJob_*: units seg_*'],
    proof=dict(unwind=26), bounded=dict(unwind=26, bound='5 options, 4 reads')),
'get': dict(harness='get.c', src=['main_get.c'], functions=['main_get'], defs=['-DH_GET', '-DVF_LOUD_OK'],
    loops={'main_get': {'n': 1, 0: dict(setp={'of': 'vf_of()', 'hdr_only': 't_hdronly', 'quiet': 't_quiet', 'zip': 't_zip'}, inv=['inv0(of, hdr_only, quiet, zip)'])}},
    assumes=['contracts of GetJob_*: units gj_*', 'libmd computes SHA256', 'numbers are printed in decimal as printf(3) says'],
    proof=dict(unwind=70), bounded=dict(unwind=70, bound='4 options')),
'get_iter': dict(harness='get.c', src=['main_get.c'], functions=['get_iter'], defs=['-DH_ITER', '-DVF_LOUD_OK'],
    assumes=['fwrite(3) returns what it wrote'], proof=dict(unwind=70), bounded=dict(unwind=70, bound='none needed: loop free')),
}

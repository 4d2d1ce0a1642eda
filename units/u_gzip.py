"""Contracts of gzip.c"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
MEM = ['--no-standard-checks', '--bounds-check', '--pointer-check']
Z = ['zlib implements deflate, gzip and CRC32 as documented (deflate either fills the output, or has written everything flushed)']
def z(name, h, fns, defs=[], **kw):
    d = dict(harness='gzip.c', src=['gzip.c'], defs=['-D' + h] + defs, functions=fns, assumes=Z,
             proof=dict(unwind=26), bounded=dict(unwind=66, bound='none needed: loops have fixed trip counts'))
    d.update(kw)
    return {name: d}
UNITS = {}
UNITS.update(z('gz_read', 'H_READ', ['Gzip_ReadAa', 'Gzip_GoodAa'], checks=MEM))
UNITS.update(z('gz_read_bad', 'H_READ', ['Gzip_ReadAa', 'Gzip_GoodAa'], ['-DVF_LOUD_OK'], checks=MEM))
UNITS.update(z('gz_write', 'H_WRITE', ['Gzip_WriteAa']))
UNITS.update(z('gz_write_bad', 'H_WRITE', ['Gzip_WriteAa'], ['-DVF_LOUD_OK']))
UNITS.update(z('gz_init', 'H_INIT', ['Gzip_InitDeflate', 'Gzip_AddAa']))
UNITS.update(z('gz_vsb', 'H_VSB', ['Gzip_Vsb'], loops={'Gzip_Vsb': {'n': 1, 0: dict(havoc=['g', 'v_out'],
    heap=['zs'], inv=['g.level == level && g.deleted == 0', 'g.init == 1 && g.sethead == 1 && !g.fin && !g.ended && g.out_n == 0',
    'zs->next_in == g.in_p && zs->avail_in == g.in_left && g.in_left <= (uint64_t)v_in.s_len',
    'v_out.s_len >= 0 && (uint64_t)v_out.s_len == g.total && g.total <= (1ULL << 40) + 1024'])}},
    bounded=dict(unwind=76, bound='output of at most 70 buffers')))
UNITS.update(z('stitch_new', 'H_NEW', ['gzip_stitch_new', 'gzip_stitch_member']))
UNITS.update(z('stitch_fini', 'H_FINI', ['gzip_stitch_fini']))
UNITS.update(z('stitch_feed', 'H_FEED', ['gzip_stitch_feed'], split=True, solver=['--sat-solver', 'cadical'], proof=dict(unwind=26),
    loops={'gzip_stitch_feed': {'n': 1, 0: dict(dec='len * 2 + (gs->state == GZSTATE_INSIDE)', havoc=['g'], heap=['gs'], inv=['i_shape(p, len)', 'i_state(len)', 'i_out(len)', 'i_crc(len)'],
        setp={'gs->retval': 'vf_havoc_gs()', 'p': 'vf_p(len)'})}},
    bounded=dict(unwind=42, unwindset=['gzip_stitch_feed.0:4'], solver=[], bound='members of 38 bytes')))

"""Contracts of index.c"""
OFF = '(uint64_t)(ptr - g_chunk)'
BASE = ['len >= 0 && (len & 31) == 0', 'ptr >= g_chunk && ' + OFF + ' + (uint64_t)len == 32 * g_n2',
        'n >= 0 && (uint64_t)n == g.out', 'g.upd == 0', '(g.pos2 & 31) == 0', 'g.bw == 1',
        'g.open2 == 1 && g.renamed == 0 && !g.lost && !g.ferr', 'g.est >= g_n1 + g_n2', 'g.ck <= g_n2',
        'INST1(g.i1, g.last1)', 'INST2(g.ck, g.cur)']
LEN = '(uint64_t)len/32'
def cnt(i1): return ['g.i1 <= g_n1', 'g.out %s<= g.i1 + (g_n2 - %s)' % (i1, LEN)]
W1 = '!g_win1 || g_p1 >= g.i1 || g.wout'
W1r = '!g_win1 || g_p1 + 1 >= g.i1 || g.wout'
W2 = '!g_win2 || g_p2 * 32 >= ' + OFF + ' || g.wout'
LAST = ['len == 0 || g.ck * 32 == ' + OFF + ' || g.ck * 32 == ' + OFF + ' + 32',
        'g.out == 0 || len == 0 || (g.ck > 0 && REC_LE(&g.last, &g.cur))']
POS1 = 'g_exist == 1 && g.open1 == 1 && g.pos1 == HDR1 + 32 * (int64_t)g.i1'
SP = {'ptr': 'g_chunk + ND64()'}
ZERO = '(VFW(recl,0)|VFW(recl,1)|VFW(recl,2)|VFW(recl,3))==0'
RECS = ['g.i1 > 0 && REC_EQ(rec,&g.last1) && REC_EQ(recl,&g.last1)',
        'g_win1 == 0 || g.i1 != g_p1 + 1 || REC_EQ(rec, &g_w)', 'g.out == 0 || REC_LE(&g.last, rec)']

UNITS = {
 'idx_merge': dict(
    harness='idx_merge.c', src=['index.c'], functions=['idx_merge'],
    detach=['idx_filename', 'bucket_new', 'bucket_update', 'bucket_write', 'bucket_skip'],
    loops={'idx_merge': {'n': 4,
      0: dict(setp=SP, havoc=['g'], inv=BASE + cnt('') + [W1, W2] + LAST + [POS1, 'g.out == 0 ? g.i1 == 0 : g.i1 > 0',
            'g.i1 == 0 ? (%s) : (REC_EQ(recl,&g.last1) && REC_EQ(&g.last,recl))' % ZERO]),
      1: dict(dec='len', setp=SP, havoc=['g'], inv=BASE + cnt('+ 1') + [W1r, W2] + LAST + [POS1] + RECS),
      2: dict(dec='len', setp=SP, havoc=['g'], inv=BASE + cnt('+ 1') + [W1r, W2 + ' || REC_EQ(rec,&g_w)', POS1] + RECS + [
            'len == 0 || (g.ck * 32 == ' + OFF + ' + 32 && REC_LE(rec, &g.cur)) || (g.ck > 0 && g.ck * 32 == ' + OFF + ' && REC_LE(rec, &g.cur))']),
      3: dict(dec='len', setp=SP, havoc=['g'], inv=BASE + cnt('') + [W1, W2] + LAST + ['g.open1 == 0 && g.i1 == g_n1']),
    }},
    detach_all=['idx_filename'],
    proof=dict(unwind=6),
    bounded=dict(unwind=5, unwindset=['vf_bytes.0:65'], defs=['-DMAXREC=2'], bound='at most 2 records in index.sorted and 2 in the chunk'),
    assumes=['stdio on regular files without I/O errors (fopen/fread/fwrite/fseeko/ftello/fclose), rename(2)',
             'contracts of idx_filename, bucket_new/update/write/skip (discharged in their own units)'],
 ),
 'idx_insert': dict(
    harness='idx_insert.c', src=['index.c'], functions=['IDX_Insert', 'idx_key_bin', 'idx_hex_digit'],
    detach=['idx_filename'], detach_all=['idx_filename'],
    proof=dict(unwind=66), bounded=dict(unwind=66, bound='none needed: no unbounded loop'),
    checks=['--no-standard-checks', '--bounds-check', '--pointer-check'],
    assumes=['open/write/close without I/O errors; one write(2) of 32 bytes with O_APPEND is atomic']),
 'idx_valid': dict(
    harness='idx_valid.c', src=['index.c'], functions=['IDX_Valid_Id'],
    proof=dict(unwind=30),
    bounded=dict(unwind=40, defs=['-DMAXL=20', '-DMAXP=3'], bound='strings up to 20 characters'),
    assumes=['contracts of strlen/strspn/strcspn/strncasecmp (ASCII, "C" locale)']),
}
IO = 'stdio on regular files without I/O errors (fopen/fread/fwrite/fseeko/ftello/fclose)'
LEM = 'lemma mul_div_mono (monotonicity of the predicted record number), proved in Lean: lemmas/Bucket.lean'
def bk(n, h, fns, loops={}, **kw):
    return {n: dict(harness='idx_bucket.c', src=['index.c'], defs=['-D' + h], functions=fns, loops=loops,
        assumes=[IO, LEM], checks=['--no-standard-checks', '--bounds-check', '--pointer-check', '--undefined-shift-check'], **kw)}
UNITS.update(bk('bucket_update', 'H_UPDATE', ['bucket_update'], proof=dict(unwind=9),
    bounded=dict(unwind=10, bound='at most 8 buckets, 15 records')))
UNITS.update(bk('bucket_new', 'H_NEW', ['bucket_new'],
    {'bucket_new': {'n': 2, 1: dict(inv=['u <= bp->nbucket', 'u <= g_j || bp->buckets[g_j] == 1LL << 31'], heap=['bp'], havoc=['g', '*bp->buckets'])}},
    proof=dict(unwind=30), bounded=dict(unwind=30, bound='at most 15 records')))
UNITS.update(bk('bucket_write', 'H_WRITE', ['bucket_write'],
    {'bucket_write': {'n': 1, 0: dict(inv=['i <= g_nb', '!g.lost', 'g.wn == i && g.pos == 8 * (int64_t)i',
       'i == 0 || (g.h_seen == 1 && g.h_val == (uint64_t)bp->buckets[0])', 'i > 0 || g.h_seen == 0',
       'i > g_j ? (g.j_seen == 1 && g.j_val == g_e) : g.j_seen == 0'], heap=['bp'], havoc=['g'])}},
    proof=dict(unwind=9), bounded=dict(unwind=10, bound='at most 8 buckets')))
UNITS.update(bk('bucket_seek', 'H_SEEK', ['bucket_seek'], proof=dict(unwind=13), bounded=dict(unwind=13, bound='at most 8 buckets, 15 records')))
UNITS.update(bk('bucket_seek_nomatch', 'H_SEEKEMPTY', ['bucket_seek'], proof=dict(unwind=13), bounded=dict(unwind=13, bound='at most 8 buckets, 15 records')))
UNITS.update(bk('bucket_skip', 'H_SKIP', ['bucket_skip'], proof=dict(unwind=9), bounded=dict(unwind=9, bound='at most 8 buckets, 15 records')))

UNITS['bucket_update']['solver'] = UNITS['bucket_seek']['solver'] = ['--cvc5']
UNITS['bucket_lemma'] = dict(lean='lemmas/Bucket.lean', functions=[])
UNITS['idx_iter'] = dict(
    harness='idx_iter.c', src=['index.c'], functions=['IDX_Iter', 'idx_key_bin', 'idx_hex_digit'],
    detach=['idx_filename', 'bucket_seek'], detach_all=['idx_filename', 'bucket_seek'],
    loops={'IDX_Iter': {'n': 2, 1: dict(havoc=['g'], inv=[
        'g.stopped == 0 && !(g.fresh && g.lastmatch)',
        '((uint64_t *)(void *)key_p)[0] == ((uint64_t *)(void *)g_kb)[0] && ((uint32_t *)(void *)key_p)[2] == ((uint32_t *)(void *)g_kb)[2]',
        'g.open[0] == (idf == idxfiles) && g.open[1] == (idf == idxfiles + 1) && g.open[2] == (idf == idxfiles + 2)',
        'g.opened[0] && (idf >= idxfiles + 1) == g.opened[1] && (idf >= idxfiles + 2) == g.opened[2]',
        'g.i[0] <= g_n[0] && g.i[1] <= g_n[1] && g.i[2] <= g_n[2]',
        'g.lastf >= -1 && g.lastf <= idf - idxfiles',
        'idf != idxfiles || (g.seeked && g.i[0] >= g_s)',
        'idf >= idxfiles + 1 || g.i[1] == 0', 'idf >= idxfiles + 2 || g.i[2] == 0',
        'g_wf != 0 || !g_wmatch || g.visited || (idf == idxfiles && g.i[0] <= g_wn)',
        'g_wf != 1 || !g_wmatch || g.visited || (idf <= idxfiles + 1 && g.i[1] <= g_wn)',
        'g_wf != 2 || !g_wmatch || g.visited || g.i[2] <= g_wn',
    ])}},
    proof=dict(unwind=67), bounded=dict(unwind=5, unwindset=['vf_memcmp.0:33','idx_key_bin.0:13','matches.0:25','vf_strncasecmp.0:26'] + ['cb.%d:25' % i for i in range(4)] + ['harness.%d:67' % i for i in range(5)] + ['vf_snprintf.%d:26' % i for i in range(5)] + ['bucket_seek.%d:13' % i for i in range(3)], bound='at most 2 entries per index file'),
    assumes=[IO, 'contract of snprintf for %0Nx, strncasecmp, strlen, strspn, memcmp',
       'contract of bucket_seek, discharged in units bucket_seek and bucket_seek_nomatch for prefixes of at least 7 digits or full IDs'])
HO = ['file system calls behave as POSIX specifies; read(2) of a regular file returns all that is asked for or up to its end',
      'no process appends to the snapshot after its end was seen (the window between open and write of another process is not covered)']
UNITS['idx_attempt'] = dict(harness='idx_house.c', src=['index.c'], defs=['-DH_ATTEMPT'], functions=['idx_attempt_merge', 'idx_cmp'],
    detach=['idx_merge'], detach_all=['idx_merge'], assumes=HO + ['contract of qsort: sorts and permutes'],
    loops={'idx_attempt_merge': {'n': 1, 0: dict(havoc=['g'], inv=[
        'g.pos <= g_n && (g_n == 0 || g_p >= g.pos || g.wmerged)', 'g_n > 0 || g.wmerged', 'g.pos == 0 || g.pos == g.chunk0 + g.chunkn', 'g.hk == 1 && g.isopen == 1 && !g.closed && !g.hkgone && !g.failed',
        'g.app == (g_hk0 ? g_app0 : 0)', '!g.lock && !g.unlocked && !g.lockclosed'])}},
    proof=dict(unwind=6), bounded=dict(unwind=8, bound='at most 200 entries per chunk and 600 in the appendix'))
UNITS['idx_resort'] = dict(harness='idx_house.c', src=['index.c'], defs=['-DH_RESORT'], functions=['IDX_Resort'],
    detach=['idx_merge', 'idx_attempt_merge', 'idx_filename'], detach_all=['idx_merge', 'idx_attempt_merge', 'idx_filename'], assumes=HO,
    loops={'IDX_Resort': {'n': 1, 0: dict(havoc=['g'], inv=['g.lock == 1 && g.unlocked == 0 && g.lockclosed == 0', 'g.last == 7 || g.last > 0'])}},
    proof=dict(unwind=12), bounded=dict(unwind=12, bound='at most 10 merges'))
UNITS['idx_filename'] = dict(harness='idx_house.c', src=['index.c'], defs=['-DH_FILENAME'], functions=['idx_filename'], assumes=['string builder contract (unit vsb_*)'],
    proof=dict(unwind=30), bounded=dict(unwind=30, bound='directory names of 3 characters'))

def io(n):
    u = dict(UNITS[n])
    u['defs'] = u.get('defs', []) + ['-DIOERR', '-DVF_LOUD_OK']
    u['assumes'] = [a for a in u['assumes'] if 'without I/O' not in a] + ['a failed fopen/fread/fwrite/fflush/fseeko/fclose says so when it fails; data a failed fflush(3) could not write is lost']
    UNITS[n + '_io'] = u
io('idx_merge'); io('bucket_write')

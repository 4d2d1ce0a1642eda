"""Contracts of main_filter.c"""
UNITS = {
'filter_iter': dict(harness='filter.c', src=['main_filter.c'], defs=['-DH_ITER'], functions=['filter_iter'], detach=['filter_s_check'], detach_all=['filter_s_check'],
    assumes=['identifiers of three digits and keys of two stand for those of any length', 'contract of filter_s_check: unit filter_s'],
    loops={'filter_iter': {'n': 2, 0: dict(setp={'next_cand': 'vf_nc()'}, inv=['inv1()']), 1: dict(setp={'c': 'vf_c()', 'next_cand': 'vf_nc2()'}, heap=['c'], inv=['inv2(c)'])}},
    proof=dict(unwind=9), bounded=dict(unwind=9, bound='three candidates')),
'filter_s': dict(harness='filter.c', src=['main_filter.c'], defs=['-DH_S', '-DVF_LOUD_OK'], functions=['filter_s_check'],
    assumes=['identifiers of three digits stand for those of any length', 'contracts of Rsilo_Open, Rsilo_ReadHeader: units rs_*'], proof=dict(unwind=9), bounded=dict(unwind=9, bound='none needed: loop free')),
'filter_read': dict(harness='filter.c', src=['main_filter.c'], defs=['-DH_READ'], functions=['read_file'],
    assumes=['identifiers of three digits stand for those of any length', 'fgets(3) delivers lines'],
    loops={'read_file': {'n': 2, 0: dict(setp={'retval': 'vf_rv()'}, heap=['p', 'c1'], inv=['invread(retval)'])}},
    proof=dict(unwind=10), bounded=dict(unwind=10, unwindset=['read_file.0:4'], bound='two lines of at most six characters')),
'filter_main': dict(harness='filter.c', src=['main_filter.c'], defs=['-DH_MAIN'], functions=['main_filter', 'cand_cmp'], detach=['read_file', 'filter_iter'], detach_all=['read_file', 'filter_iter'],
    proof=dict(unwind=9), loops={'main_filter': {'n': 5, 0: dict(havoc=['m', 'vf_optarg'], setp={'s_flag': 'm.s', 'r_flag': 'm.r', 'v_flag': 'm.v', 'ofile': 'm.of ? vf_optarg : NULL'}, inv=['invopt(r_flag, v_flag, ofile)']),
        1: dict(dec='argc', havoc=['m'], heap=['argv'], setp={'argv': 'vf_argv()', 'argc': 'vf_argc()', 'ncand': 'm.n'}, inv=['invarg(argc, argv, stdin_done, needs_sort)', 'invfl(r_flag, v_flag)']),
        2: dict(dec='ncand - ch', heap=['cp'], setp={'m.k': '(int)ND32()', 'c': 'vf_col(cp)', 'candidates': 'candidates', 'ch': 'm.k'}, inv=['invcol(c, cp, ch)']),
        3: dict(dec='ncand - ch', heap=['cp'], setp={'m.k': '(int)ND32()', 'cp': 'vf_ins(cp)', 'ch': 'm.k', 'sorted': 'sorted'}, inv=['invins(cp, ch)']),
        4: dict(dec='vf_left()', heap=['c'], setp={'m.k': '(int)ND32()', 'c': 'vf_rep()', 'candidates': 'candidates'}, inv=['invrep(c)'])}},
    assumes=['contracts of read_file, filter_iter: units filter_read, filter_iter; of IDX_Iter: unit idx_iter', 'qsort(3), getopt(3)'],
    bounded=dict(unwind=8, bound='two candidates, two files, two options')),
}

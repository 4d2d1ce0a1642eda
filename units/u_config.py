"""Contracts of config.c"""
S = {'setp': {'sc': 'vf_ws(cfg)'}, 'heap': ['cfg'], 'inv': ['invs(cfg, sc)'], 'mark': 'g.w1'}
UNITS = {
'cfg_get': dict(harness='config.c', src=['config.c'], defs=['-DH_GET'], functions=['Config_Get', 'Config_Find', 'Config_Iter'],
    assumes=['strcasecmp(3) compares without regard to case'],
    loops={'Config_Get': {'n': 1, 0: S},
           'Config_Find': {'n': 2, 0: S, 1: dict(setp={'ap': 'vf_ap', 'ent': 'vf_we(sc)'}, heap=['sc'], inv=['inve(sc, ent)'], mark='g.w1')},
           'Config_Iter': {'n': 2, 0: S, 1: dict(setp={'ent': 'vf_we(sc)'}, heap=['sc'], inv=['inve2(sc, ent)'], mark='g.w1')}},
    proof=dict(unwind=6), bounded=dict(unwind=6, bound='at most 3 sections and 3 entries')),
'cfg_parse': dict(harness='config.c', src=['config.c'], defs=['-DH_PARSE'], functions=['config_parse'],
    assumes=['strchr(3) and strcmp(3) follow their manual'],
    loops={'config_parse': {'n': 6,
        0: dict(dec='vf_rem(p)', setp={'p': 'vf_line(cfg)', 'sc': 'vf_cur()'}, heap=['cfg', 'sc', 'ent', 'e', 'q', 'r'], inv=['invl(cfg, p, sc)'], mark='g.w1'),
        1: dict(dec='vf_rem(q)', setp={'q': 'vf_at(1)', 'r': '(char *)vf_last()'}, inv=['inv_scan(q, r)']),
        2: dict(setp={'sc': 'vf_ws(cfg)'}, heap=['cfg'], inv=['inv_dup(sc)']),
        3: dict(dec='vf_rem(q)', setp={'q': 'vf_at(3)'}, inv=['inv_word(3, q)']),
        4: dict(dec='vf_rem(q)', setp={'q': 'vf_at(4)'}, inv=['inv_word(4, q)']),
        5: dict(dec='vf_rem(q)', setp={'q': 'vf_at(5)'}, inv=['inv_word(5, q)'])}},
    solver=['--sat-solver', 'cadical'], proof=dict(unwind=5), bounded=dict(unwind=50, solver=[], bound='twelve texts')),
'cfg_read': dict(harness='config.c', src=['config.c'], defs=['-DH_READ'], functions=['Config_Read'], detach=['config_parse'], detach_all=['config_parse'],
    loops={'Config_Read': {'n': 1, 0: dict(setp={'p': '(u_char *)vf_sp(cfg)'}, heap=['p'], inv=['invp(p)'], mark='g.w1')}},
    assumes=['contract of config_parse: unit cfg_parse'], proof=dict(unwind=5), bounded=dict(unwind=7, bound='4 bytes')),
}

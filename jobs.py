"""Which symbolic executions decide which property, within which bounds."""
COPY, ALL_T = ['ECopy', 'ENt', 'ETm'], ['ECopy', 'ENt', 'ETm', 'EMo']
S = lambda s: s.split()
C01 = S('push_back_c push_back_r push_back_d push_front_c push_front_r push_front_d pop_back pop_front')
C02 = S('insert_c insert_r insert_d rinsert_c rinsert_r rinsert_d')
C03 = S('insert_n rinsert_n insert_ii rinsert_ii insert_ra insert_fw insert_in rinsert_ra rinsert_fw rinsert_in')
C04 = S('erase1 erase_range rerase1 rerase_range erase_begin erase_end clear')
C07 = S('linearize rotate')
C08 = S('set_capacity rset_capacity resize rresize')
C09 = S('assign_n assign_cap_n assign_ii assign_cap_ii assign_ra assign_fw assign_in assign_cap_ra assign_cap_fw assign_cap_in')
ALL = C01 + C02 + C03 + C04 + C07 + C08 + C09
BASE_ONLY = {'erase_begin', 'erase_end'}
SCALAR_ONLY = {e for e in ALL if e.endswith('_ii')}
CLASS_ONLY = {e for e in ALL if e.endswith('_d')}
MOVE_ONLY_OK = {'push_back_r', 'push_back_d', 'push_front_r', 'push_front_d', 'pop_back', 'pop_front', 'insert_r', 'insert_d', 'rinsert_r', 'rinsert_d',
                'erase1', 'erase_range', 'rerase1', 'rerase_range', 'erase_begin', 'erase_end', 'clear', 'linearize', 'rotate', 'set_capacity', 'rset_capacity'}
CONTENT, CENSUS, THROW, STRONG, ALLOCS, STABLE, COUNT, FROM, NOTHROW, REP, MEM, INVAL, FILL = (1 << i for i in range(13))

def fits(entries, T, cls):
    cl = T.startswith('E')
    return [e for e in entries if not (cls and e in BASE_ONLY) and not (cl and e in SCALAR_ONLY) and not (not cl and e in CLASS_ONLY) and not (T == 'EMo' and e not in MOVE_ONLY_OK)]

TN = {'EPod': 'class, trivially copyable, 12 bytes', 'uint32_t': 'scalar (32-bit)', 'uint8_t': 'scalar (8-bit)', 'ECopy': 'class, copy only', 'ENt': 'class, non-throwing move', 'ETm': 'class, move may throw', 'EMo': 'class, move-only', 'EMa': 'class, move construction non-throwing, move assignment may throw', 'EMb': 'class, move construction may throw, move assignment non-throwing'}

def ops(entries, T='uint32_t', mode=CONTENT, cap=3, cls=0, life=0, alloc=0, conc=True, debug=0, extra=None, need=None, name=None, cost=None, need_any=None, note=''):
    es = fits(entries, T, cls)
    d = {'VP_T': T, 'VP_MODE': mode, 'CAPMAX': cap, 'VP_CLASS': cls}
    if life: d['VP_LIFE'] = 1
    if alloc: d['VP_ALLOC'] = 1
    if debug: d['VP_DEBUG'] = 1
    if conc: d['VP_CONCOFF'] = 1
    d.update(extra or {})
    g = {'name': name or '%s%s%s cap<=%d%s' % ('SO ' if cls else '', 'debug ' if debug else '', T, cap, '' if conc else ' symoff'),
         'tu': {'src': 'ops.cpp', 'defs': d}, 'entries': es,
         'bounds': '%s, element type %s: every capacity 0..%d%s, every start offset (%s), every size, every element value; positions, counts and lengths: all positions; counts any 64-bit value where the argument allows, ranges up to %d items, new capacities/sizes up to %d%s' % (
             'circular_buffer_space_optimized' if cls else 'circular_buffer', TN[T], cap, ', every min_capacity and allocated amount, up to 2 pushes of growth' if cls else '', 'case split by the solver' if conc else 'symbolic', cap + 2, cap + 1, '; ' + note if note else '')}
    if need is not None: g['need'] = need
    if need_any: g['need_any'] = need_any
    g['cost'] = cost or COST
    return g

COST = {e: 5 for e in C03}
COST.update({e: 3 for e in C09 + C08 + C02})

def content(entries, q=True, types=('ENt', 'EMo', 'ECopy')):
    """full-result comparison with the reference sequence"""
    def quick():
        g = [ops(entries, 'uint32_t', cap=7, conc=True), ops(entries, 'uint32_t', cap=3, conc=False)]
        g += [ops(entries, t, cap=6) for t in types if fits(entries, t, 0)]
        return g
    def thorough():
        g = [ops(entries, 'uint32_t', cap=10), ops(entries, 'uint32_t', cap=5, conc=False), ops(entries, 'uint8_t', cap=7)]
        g += [ops(entries, t, cap=8) for t in ALL_T if fits(entries, t, 0)]
        return g
    return {'quick': quick, 'thorough': thorough}

# ---- multi.cpp: construction, copying, moving, comparing, reading, limits, aliasing, adaptor memory policy
CT = S('c_default c_cap c_n c_capn c_ii c_capii c_ra c_fw c_in c_capra c_capfw c_capin')
CP = S('copy copy_assign self_assign')
MV = S('move_ctor move_assign swap_member swap_free swap_self swap_iters destroy')
BAD = S('bad_access bad_iter bad_citer bad_riter bad_range bad_args bad_foreign registry')
RDX = S('index walk iter_arith at_any')
LN0 = S('len_set_capacity len_rset_capacity len_resize len_rresize len_assign len_assign_cap len_assign_cap_range len_ctor len_ctor_n len_ctor_range')
LN1 = S('len_ctor len_set_capacity len_rset_capacity')
AL = S('alias_push_back alias_push_front alias_insert alias_rinsert alias_insert_n alias_rinsert_n alias_resize alias_rresize')
SOM = S('thrash release huge_capacity')
EMO_MULTI = set(S('from_moved history bad_access bad_iter bad_citer bad_riter bad_range bad_foreign registry outlive c_default c_cap compare index walk iter_arith at_any observers_nothrow len_ctor len_set_capacity len_rset_capacity') + MV + SOM)

def multi(entries, T='uint32_t', mode=CONTENT, cap=3, cap2=None, cls=0, life=0, alloc=0, debug=0, conc=True, extra=None, need=None, need_any=None, name=None, cost=None):
    es = [e for e in entries if not (T == 'EMo' and e not in EMO_MULTI) and not (T.startswith('E') and e in ('c_ii', 'c_capii', 'from_other_type')) and not (not T.startswith('E') and e == 'from_moved') and not (e in SOM and not cls) and not (cls and e == 'c_capii' and len(entries) != 2) and not (debug and e == 'swap_iters')]
    d = {'VP_T': T, 'VP_MODE': mode, 'CAPMAX': cap, 'VP_CLASS': cls}
    if cap2 is not None: d['CAP2'] = cap2
    if life: d['VP_LIFE'] = 1
    if alloc: d['VP_ALLOC'] = 1
    if debug: d['VP_DEBUG'] = 1
    if conc: d['VP_CONCOFF'] = 1
    d.update(extra or {})
    g = {'name': name or 'multi %s%s%s cap<=%d%s%s' % ('SO ' if cls else '', 'debug ' if debug else '', T, cap, '' if conc else ' symoff', ''.join(' %s=%s' % x for x in (extra or {}).items())),
         'tu': {'src': 'multi.cpp', 'defs': d}, 'entries': es,
         'bounds': '%s, element type %s: every buffer of capacity 0..%d (second buffer 0..%d): every start offset, size and value%s; ranges up to %d items; indices and requested capacities where no storage of that size is needed: every 64-bit value' % (
             'circular_buffer_space_optimized' if cls else 'circular_buffer', TN[T], cap, cap if cap2 is None else cap2, ', minimum and allocated amount, up to 2 pushes of growth' if cls else '', cap + 2)}
    if need is not None: g['need'] = need
    if need_any: g['need_any'] = need_any
    g['cost'] = cost or {'iter_arith': 10, 'copy_assign': 4, 'compare': 4, 'move_assign': 4, 'swap_member': 4, 'huge_capacity': 8}
    return g

PROPS = {
    'C01': content(C01), 'C02': content(C02), 'C03': content(C03), 'C04': content(C04), 'C07': content(['rotate']), 'C08': content(C08),
    'C06': {'quick': lambda: [ops(ALL, 'uint32_t', REP, 5), ops(ALL, 'ENt', REP, 5), ops(ALL, 'uint32_t', REP, 3, cls=1)] + [ops(['linearize'], t, REP, 8) for t in ('uint32_t', 'ENt')],
            'thorough': lambda: [ops(ALL, 'uint32_t', REP, 6)] + [ops(ALL, t, REP, 7) for t in ALL_T] + [ops(ALL, 'uint32_t', REP, 4, cls=1)] + [ops(['linearize'], t, REP, 12) for t in ['uint32_t'] + ALL_T]},
    'C12': {'quick': lambda: [ops(ALL, t, CENSUS, 5, life=1, alloc=1) for t in ALL_T] + [ops(ALL, t, CENSUS, 3, cls=1, life=1, alloc=1) for t in ('ENt', 'ECopy')],
            'thorough': lambda: [ops(ALL, t, CENSUS, 7, life=1, alloc=1) for t in ALL_T] + [ops(ALL, t, CENSUS, 4, cls=1, life=1, alloc=1) for t in ALL_T]},
    'C13': {'quick': lambda: [ops(ALL, t, THROW, 5, life=1, alloc=1, need_any=['threw']) for t in ALL_T],
            'thorough': lambda: [ops(ALL, t, THROW, 7, life=1, alloc=1, need_any=['threw']) for t in ALL_T]},
    'C14': {'quick': lambda: [ops(C01[:6] + C08[:2], t, STRONG, 6, life=1, alloc=1, need_any=['strong']) for t in ALL_T] + [ops(C08[:2], t, STRONG, 4, cls=1, life=1, alloc=1, need_any=['strong']) for t in ALL_T],
            'thorough': lambda: [ops(C01[:6] + C08[:2], t, STRONG, 9, life=1, alloc=1, need_any=['strong']) for t in ALL_T] + [ops(C08[:2], t, STRONG, 6, cls=1, life=1, alloc=1, need_any=['strong']) for t in ALL_T]},
    'C15': {'quick': lambda: [ops(ALL, t, ALLOCS, 5, alloc=1) for t in ['uint32_t'] + ALL_T] + [ops(ALL, t, ALLOCS, 3, cls=1, alloc=1) for t in ['ENt']] + [ops(ALL, t, THROW, 4 - c, alloc=1, cls=c) for t in ['ETm'] for c in (0, 1)],
            'thorough': lambda: [ops(ALL, t, ALLOCS, 7, alloc=1) for t in ['uint32_t'] + ALL_T] + [ops(ALL, t, ALLOCS, 4, cls=1, alloc=1) for t in ALL_T] + [ops(ALL, t, THROW, 5 - c, alloc=1, cls=c) for t in ALL_T for c in (0, 1)]},
    'C16': {'quick': lambda: [ops(ALL, 'uint32_t', CONTENT, 4, cls=1), ops(ALL, 'ENt', CONTENT, 3, cls=1), ops(ALL, 'EMo', CONTENT, 3, cls=1)],
            'thorough': lambda: [ops(ALL, 'uint32_t', CONTENT, 5, cls=1)] + [ops(ALL, t, CONTENT, 4, cls=1) for t in ALL_T]},
    'C17': {'quick': lambda: [ops(ALL, 'uint32_t', MEM, 4, cls=1), ops(ALL, 'ENt', MEM, 3, cls=1)],
            'thorough': lambda: [ops(ALL, 'uint32_t', MEM, 6, cls=1), ops(ALL, 'ENt', MEM, 4, cls=1)]},
    'C18': {'quick': lambda: [ops(ALL, t, THROW, 3, cls=1, life=1, alloc=1, need_any=['threw']) for t in ALL_T],
            'thorough': lambda: [ops(ALL, t, THROW, 4, cls=1, life=1, alloc=1, need_any=['threw']) for t in ALL_T]},
    'C19': {'quick': lambda: [ops(ALL, t, CONTENT, 4 - c, debug=1, cls=c) for t in ('uint32_t', 'ENt') for c in (0, 1)] + [ops(ALL, t, STABLE, 5, debug=1) for t in ('uint32_t', 'ENt')],
            'thorough': lambda: [ops(ALL, t, CONTENT, 5 - c, debug=1, cls=c) for t in ['uint32_t'] + ALL_T for c in (0, 1)] + [ops(ALL, t, STABLE, 7, debug=1) for t in ['uint32_t'] + ALL_T]},
    'C21': {'quick': lambda: [ops(ALL, t, STABLE, 7 if t == 'uint32_t' else 6, need_any=['survivor']) for t in ('uint32_t', 'ENt', 'ECopy')],
            'thorough': lambda: [ops(ALL, t, STABLE, 9 if t == 'uint32_t' else 8, need_any=['survivor']) for t in ['uint32_t'] + ALL_T]},
    'C23': {'quick': lambda: [ops([e for e in ALL if not e.endswith('_in')], t, COUNT, 6, need_any=['counted']) for t in ('ENt', 'ECopy')],
            'thorough': lambda: [ops([e for e in ALL if not e.endswith('_in')], t, COUNT, 8, need_any=['counted']) for t in ALL_T]},
    'C24': {'quick': lambda: [ops(ALL, t, FROM, 6, extra={'VP_FROM': 1}, need_any=['moved']) for t in ('ENt', 'ETm', 'EMo')],
            'thorough': lambda: [ops(ALL, t, FROM, 8, extra={'VP_FROM': 1}, need_any=['moved']) for t in ('ENt', 'ETm', 'EMo')]},
    'C25': {'quick': lambda: [ops(ALL, t, NOTHROW, 6, need_any=['nothrow op']) for t in ALL_T],
            'thorough': lambda: [ops(ALL, t, NOTHROW, 8, need_any=['nothrow op']) for t in ALL_T]},
}

def more(prop, quick, thorough):
    """further groups for a property"""
    old = PROPS.get(prop, {'quick': lambda: [], 'thorough': lambda: []})
    PROPS[prop] = dict(old, quick=lambda: old['quick']() + quick(), thorough=lambda: old['thorough']() + thorough())

SC = ['uint32_t']
more('C05', lambda: [multi(S('index walk at_any'), 'uint32_t', cap=5), multi(['iter_arith'], 'uint32_t', cap=3), multi(RDX, 'uint32_t', cap=2, conc=False), multi(RDX, 'ENt', cap=3), multi(RDX, 'uint32_t', cap=2, cls=1)],
            lambda: [multi(RDX, 'uint32_t', cap=6, conc=False)] + [multi(RDX, t, cap=5) for t in ALL_T] + [multi(RDX, t, cap=4, cls=1) for t in SC + ALL_T])
more('C09', lambda: [multi(CT + CP, t, cap=3) for t in ('uint32_t', 'ENt', 'ECopy')] + [multi(CT + CP, 'uint32_t', cap=2, cls=1)] + [ops(C09, 'uint32_t', cap=4), ops(C09, 'ENt', cap=2)],
            lambda: [multi(CT + CP, t, cap=5, cap2=4) for t in SC + ALL_T] + [multi(CT + CP, t, cap=3, cls=1) for t in SC + ALL_T] + [ops(C09, t, cap=5) for t in SC + ALL_T])
more('C10', lambda: [multi(MV, t, cap=3, cls=c, extra=x) for t, c in (('uint32_t', 0), ('ENt', 0), ('EMo', 0), ('ENt', 1)) for x in ({}, {'MOVE_ID2': 7})] + [multi(MV, t, cap=3, debug=1) for t in ('uint32_t', 'ENt')],
            lambda: [multi(MV, t, cap=5 - c, cap2=4 - c, cls=c, extra=x) for t in SC + ALL_T for c in (0, 1) for x in ({}, {'MOVE_ID2': 7})] + [multi(MV, t, cap=4, debug=1, cls=c) for t in SC + ALL_T for c in (0, 1)])
more('C11', lambda: [multi(['compare'], 'uint32_t', cap=4, cap2=3), multi(['compare'], 'ENt', cap=3), multi(['compare'], 'uint32_t', cap=2, cls=1)],
            lambda: [multi(['compare'], 'uint32_t', cap=5, cap2=5), multi(['compare'], 'ENt', cap=4), multi(['compare'], 'uint32_t', cap=3, cls=1), multi(['compare'], 'ECopy', cap=3, cls=1)])
more('C12', lambda: [multi(CT + CP + MV + AL, t, CENSUS, cap=2, life=1, alloc=1, cls=c) for t in ('ENt', 'ECopy') for c in (0, 1)],
            lambda: [multi(CT + CP + MV + AL, t, CENSUS, cap=4 - c, life=1, alloc=1, cls=c) for t in ALL_T for c in (0, 1)])
more('C13', lambda: [multi(CT[1:] + CP[:2], t, THROW, cap=3, cap2=2, life=1, alloc=1, need_any=['threw']) for t in ('ENt', 'ECopy', 'ETm')],
            lambda: [multi(CT[1:] + CP[:2], t, THROW, cap=5, cap2=3, life=1, alloc=1, need_any=['threw']) for t in ALL_T])
more('C14', lambda: [multi(['copy_assign'], t, STRONG, cap=3, cap2=3, life=1, alloc=1, cls=c, need_any=['strong']) for t in ('ENt', 'ECopy', 'ETm') for c in (0, 1)],
            lambda: [multi(['copy_assign'], t, STRONG, cap=4 - c, cap2=4 - c, life=1, alloc=1, cls=c, need_any=['strong']) for t in ('ENt', 'ECopy', 'ETm') for c in (0, 1)])
more('C15', lambda: [multi(LN0, t, cap=2) for t in ('uint32_t', 'ENt')] + [multi(LN1, 'uint32_t', cap=2, cls=1)] + [multi(CT + CP + MV, 'uint32_t', ALLOCS, cap=3, cap2=2, alloc=1), multi(CT + CP + MV, 'ENt', ALLOCS, cap=2, alloc=1, cls=1), multi(CT[1:] + CP[:2], 'ETm', THROW, cap=2, alloc=1)],
            lambda: [multi(LN0, t, cap=3) for t in SC + ALL_T[:3]] + [multi(LN1, t, cap=3, cls=1) for t in SC + ALL_T] + [multi(CT + CP + MV, t, ALLOCS, cap=4 - c, alloc=1, cls=c) for t in SC + ALL_T for c in (0, 1)] + [multi(CT[1:] + CP[:2], t, THROW, cap=4, alloc=1) for t in ALL_T])
more('C16', lambda: [multi(CT + CP + MV + S('index walk'), t, cap=2, cls=1) for t in ('uint32_t', 'ENt')],
            lambda: [multi(CT + CP + MV + S('index walk'), t, cap=3, cls=1) for t in SC + ALL_T])
more('C17', lambda: [multi(S('thrash release'), 'uint32_t', cap=5, cls=1), multi(['huge_capacity'], 'uint32_t', cap=3, cls=1), multi(['release', 'thrash'], 'ENt', cap=4, cls=1)],
            lambda: [multi(S('thrash release'), 'uint32_t', cap=9, cls=1), multi(['huge_capacity'], 'uint32_t', cap=5, cls=1), multi(['release', 'thrash'], 'ENt', cap=6, cls=1)])
more('C18', lambda: [multi(CT[1:] + CP[:2], t, THROW, cap=2, cap2=2, cls=1, life=1, alloc=1, need_any=['threw']) for t in ('ENt', 'ECopy', 'ETm')],
            lambda: [multi(CT[1:] + CP[:2], t, THROW, cap=3, cap2=3, cls=1, life=1, alloc=1, need_any=['threw']) for t in ALL_T])
more('C19', lambda: [multi(CT + CP + MV + RDX[:2] + AL, t, cap=2, debug=1, cls=c) for t in ('uint32_t', 'ENt') for c in (0, 1)],
            lambda: [multi(CT + CP + MV + RDX + AL, t, cap=3, debug=1, cls=c) for t in SC + ALL_T for c in (0, 1)])
BAD0 = [e for e in BAD if e != 'registry']
def c20(cs, ts, n1, caps, rcap):
    g = [ops(ALL, t, INVAL, c, debug=1, need=[], need_any=['invalidated', 'assertion']) for t, c in cs]
    g += [multi(BAD0, t, cap=caps - k, cap2=2, debug=1, cls=k, need=['assertion']) for t in ts for k in (0, 1)]
    return g + [multi(['registry'], t, cap=rcap, debug=1, extra={'REGSTEPS': n1}, need_any=['invalidated', 'assertion', 'valid', 'valid end']) for t in ts]
PROPS['C20'] = {'quick': lambda: c20((('uint32_t', 4), ('ENt', 3), ('ECopy', 3), ('EMo', 3)), ('uint32_t', 'ENt'), 3, 3, 2),
                'thorough': lambda: c20([('uint32_t', 5)] + [(t, 4) for t in ALL_T], SC + ALL_T, 3, 4, 3)}
more('C19', lambda: [multi(S('registry outlive'), t, cap=2, debug=1, extra={'REGSTEPS': 2}) for t in ('uint32_t', 'ENt')] + [multi(['outlive'], 'uint32_t', cap=2, debug=1, cls=1)],
            lambda: [multi(S('registry outlive'), t, cap=3, debug=1) for t in SC + ALL_T] + [multi(['outlive'], t, cap=3, debug=1, cls=1) for t in SC + ALL_T])
PROPS['C29'] = {'quick': lambda: [ops(ALL, t, FILL, 4, debug=1, need_any=['free slot']) for t in ('uint32_t', 'ENt', 'ECopy')],
                'thorough': lambda: [ops(ALL, t, FILL, 5, debug=1, need_any=['free slot']) for t in SC + ALL_T]}
more('C22', lambda: [multi(['readonly'], t, cap=3, cap2=2, cls=c) for t in ('uint32_t', 'ENt') for c in (0, 1)],
            lambda: [multi(['readonly'], t, cap=5 - c, cap2=3, cls=c) for t in ('uint32_t', 'ENt', 'ECopy') for c in (0, 1)])
more('C25', lambda: [multi(S('c_default observers_nothrow') + MV, t, NOTHROW, cap=3) for t in ('ENt', 'ETm', 'EMo')] + [multi(S('c_default observers_nothrow') + MV, 'ENt', NOTHROW, cap=3, cls=1)],
            lambda: [multi(S('c_default observers_nothrow') + MV, t, NOTHROW, cap=4 - c, cls=c) for t in ALL_T for c in (0, 1)])
more('C28', lambda: [multi(AL, t, cap=4 - c, cls=c, life=l, alloc=l) for t, l in (('uint32_t', 0), ('ENt', 1), ('ECopy', 1)) for c in (0, 1)],
            lambda: [multi(AL, t, cap=5 - c, cls=c, life=l, alloc=l) for t, l in (('uint32_t', 0), ('ENt', 1), ('ECopy', 1), ('ETm', 1)) for c in (0, 1)])

def hist(T, steps, cap, hcap, cls=0, extra=None):
    x = {'HSTEPS': steps, 'HCAP': hcap}; x.update(extra or {})
    l = 0 if T == 'uint32_t' else 1
    g = multi(['history'], T, cap=cap, cls=cls, life=l, alloc=1, extra=x, name='history of %d steps %s%s cap<=%d' % (steps, 'SO ' if cls else '', T, cap), cost={'*': 30})
    g['shards'] = [['op0=%d..%d' % (i, min(i + 2, 33))] for i in range(0, 34, 3)]
    g['bounds'] = '%s; every sequence of %d operations out of 34 kinds (push, pop, insert, erase, linearize, rotate, capacity and size changes, assign, copy, move, swap), every position, counts, sizes and capacities 0..%d, ranges up to 2 items' % (g['bounds'], steps, hcap)
    return g
SO1 = {'EXTRAMAX': 1}
PROPS['C26'] = {'quick': lambda: [hist('uint32_t', 2, 4, 5), hist('ENt', 2, 3, 4), hist('ECopy', 2, 2, 3), hist('EMo', 2, 3, 4), hist('uint32_t', 3, 2, 2), hist('uint32_t', 2, 2, 3, 1, SO1), hist('ENt', 2, 2, 2, 1, SO1)],
                'thorough': lambda: [hist('uint32_t', 2, 6, 7), hist('ETm', 2, 4, 5), hist('uint32_t', 3, 3, 3), hist('ENt', 3, 2, 3), hist('EMo', 3, 3, 4), hist('uint32_t', 2, 3, 4, 1), hist('uint32_t', 3, 2, 2, 1, SO1), hist('ENt', 2, 3, 3, 1)]}

GH = S('g_index g_at g_ends g_sizes g_arrays g_plus g_minus g_order g_step g_end g_rotate g_pop g_erase_begin g_erase_end g_clear g_linear g_same g_move')
def ghost(entries, es, cls=0):
    d = {'VP_ES': es}
    if cls: d['VP_GHOSTCLASS'] = 1
    return {'name': 'huge capacities, element size %d' % es, 'tu': {'src': 'ghost.cpp', 'defs': d}, 'entries': [e for e in entries if not (cls and e in ('g_erase_begin', 'g_erase_end', 'g_resize', 'g_clear'))], 'need': ['done'], 'lin': 1, 'cost': {'*': 5},
            'bounds': 'circular_buffer of element size %d: every capacity whose storage takes up to 2^60 bytes, every storage address up to 2^60, start offset, size, index and distance (no loop is involved; queries are decided as linear integer arithmetic); the five words of the representation are located by value in a real buffer; another representation is not covered' % es}
GSZ = ((1, 0), (4, 0), (24, 1))
PROPS['C27'] = {'quick': lambda: [ghost(GH, e, c) for e, c in GSZ], 'thorough': lambda: [ghost(GH, e, c) for e, c in GSZ + ((8, 0), (3, 1), (16, 1), (40, 1), (104, 1))]}
for i_, e_ in (('C05', 'g_index g_at g_ends g_sizes g_plus g_minus g_order g_step g_end'), ('C06', 'g_arrays g_linear'), ('C07', 'g_rotate'), ('C04', 'g_erase_begin g_erase_end g_clear')):
    more(i_, lambda e_=e_: [ghost(S(e_), 4)], lambda e_=e_: [ghost(S(e_), e, c) for e, c in GSZ if not (c and 'g_erase' in e_)])

# ---- pointer types of shared-memory allocators; element creation through the allocator; stateless allocators
def fancy(gs, kind):
    for g in gs: g['twin'] = {'VP_FANCY': None}; g['twin_what'] = 'the operation cannot be used with an allocator whose pointer type is a class'; g['name'] += ' (%s)' % ('offset_ptr' if kind == 2 else 'self-relative pointer'); g['bounds'] += '; allocator with pointer type ' + ('boost::interprocess::offset_ptr' if kind == 2 else 'class FP (self-relative)')
    return gs
FM = S('index walk iter_arith at_any compare')
def c30(k, n, c1, m1):
    x = {'VP_FANCY': k}
    return fancy([ops(ALL, 'uint32_t', CONTENT | REP, n, extra=x), ops(ALL, 'ENt', CONTENT | REP | CENSUS, n - 1, life=1, alloc=1, extra=x), ops(ALL, 'uint32_t', CONTENT, c1, cls=1, extra=x), ops(ALL, 'EMo', CONTENT, n - 1, extra=x),
                  multi(CT + CP + MV + FM + AL, 'uint32_t', cap=m1, extra=x), multi(CT + CP + MV + FM, 'ENt', cap=m1, extra=x, life=1, alloc=1), multi(CT + CP + MV + FM + SOM[:2] + AL, 'ENt', cap=2, cls=1, extra=x)], k)
PROPS['C30'] = {'quick': lambda: c30(2, 4, 2, 3) + c30(1, 4, 2, 3)[:2],
                'thorough': lambda: c30(2, 6, 3, 4) + c30(1, 6, 3, 4) + fancy([ops(ALL, t, CONTENT | REP, 5, extra={'VP_FANCY': 2}) for t in ALL_T] + [ops(ALL, 'ETm', THROW, 4, life=1, alloc=1, extra={'VP_FANCY': 2})], 2)}
def c31(ts, n, c1, m, thr):
    x = {'VP_ACONS': 1}
    return [ops(ALL, t, CENSUS, n, life=1, alloc=1, extra=x) for t in ts] + [ops(ALL, t, CENSUS, c1, cls=1, life=1, alloc=1, extra=x) for t in ts] + \
           [multi(CT + CP + MV + AL, t, CENSUS, cap=m - c, cls=c, life=1, alloc=1, extra=x) for t in ts for c in (0, 1)] + [ops(ALL, t, THROW, n - 1, life=1, alloc=1, extra=x, need_any=['threw']) for t in thr]
def c31p(n, c1, m):
    x = {'VP_ACONS': 1}
    return [ops(ALL, 'EPod', CENSUS, n, life=1, alloc=1, extra=x), ops(ALL, 'EPod', CENSUS, c1, cls=1, life=1, alloc=1, extra=x)] + [multi(CT + CP + MV + AL, 'EPod', CENSUS, cap=m - c, cls=c, life=1, alloc=1, extra=x) for c in (0, 1)]
PROPS['C31'] = {'quick': lambda: c31(ALL_T, 4, 3, 3, ('ETm', 'ECopy')) + c31p(4, 2, 2), 'thorough': lambda: c31(ALL_T, 6, 4, 4, ALL_T) + c31p(6, 4, 4)}
more('C10', lambda: [multi(MV, t, cap=3 - c, cls=c, extra={'VP_STATELESS': 1, 'MOVE_ID2': 7}) for t in ('uint32_t', 'ENt') for c in (0, 1)],
            lambda: [multi(MV, t, cap=4 - c, cls=c, extra={'VP_STATELESS': 1, 'MOVE_ID2': 7}) for t in SC + ALL_T for c in (0, 1)])
RG = S('from_buffer from_moved from_other_type')
more('C03', lambda: [multi(RG, t, cap=4, cap2=3) for t in ('uint32_t', 'ENt', 'ECopy')] + [multi(RG[:1], 'uint32_t', cap=4, cap2=2, debug=1)], lambda: [multi(RG, t, cap=5, cap2=5) for t in SC + ALL_T[:3]] + [multi(RG[:1], t, cap=5, cap2=3, debug=1) for t in ('uint32_t', 'ENt')])
more('C09', lambda: [multi(RG[:2], t, cap=3, cap2=3) for t in ('ENt', 'EMo')], lambda: [multi(RG, t, cap=5, cap2=5) for t in SC + ALL_T])
more('C12', lambda: [multi(RG, t, CENSUS, cap=3, life=1, alloc=1) for t in ('ENt', 'EMo')], lambda: [multi(RG, t, CENSUS, cap=4 - c, life=1, alloc=1, cls=c) for t in ALL_T for c in (0, 1)])
more('C16', lambda: [multi(RG, t, cap=2, cls=1) for t in ('uint32_t', 'ENt')], lambda: [multi(RG, t, cap=3, cap2=2, cls=1) for t in SC + ALL_T])
def algos(T, cap, **k):
    g = multi(['algorithms'], T, cap=cap, cost={'*': 20}, **k)
    g['shards'] = [['which=%d..%d' % (i, i)] for i in range(18)]; g['bounds'] += '; 18 algorithms (sort, stable_sort, heap sort, nth_element, reverse, rotate, find, count, lower_bound, min_element, remove_if with erase, is_sorted, distance/next/prev, iter_swap, equal, move, move_backward, reverse search) on every subrange'
    return g
PROPS['C32'] = {'quick': lambda: [algos('uint32_t', 4), algos('ENt', 3, life=1), algos('ECopy', 3, life=1), algos('uint32_t', 3, debug=1), algos('uint32_t', 3, cls=1, extra={'EXTRAMAX': 1})],
                'thorough': lambda: [algos('uint32_t', 5), algos('ENt', 4, life=1), algos('ETm', 4, life=1), algos('ECopy', 4, life=1), algos('ENt', 4, debug=1), algos('uint32_t', 3, cls=1)]}
MIX = ('EMa', 'EMb')
more('C13', lambda: [ops(ALL, t, THROW, 4, life=1, alloc=1, need_any=['threw']) for t in MIX], lambda: [ops(ALL, t, THROW, 6, life=1, alloc=1, need_any=['threw']) for t in MIX] + [multi(CT[1:] + CP[:2], t, THROW, cap=4, cap2=3, life=1, alloc=1, need_any=['threw']) for t in MIX])
more('C14', lambda: [ops(C01[:6] + C08[:2], t, STRONG, 5, life=1, alloc=1, need_any=['strong']) for t in MIX] + [multi(['copy_assign'], t, STRONG, cap=2, cap2=2, life=1, alloc=1, need_any=['strong']) for t in MIX],
            lambda: [ops(C01[:6] + C08[:2], t, STRONG, 8 - 3 * c, cls=c, life=1, alloc=1, need_any=['strong']) for t in MIX for c in (0, 1)])
more('C18', lambda: [ops(ALL, t, THROW, 2, cls=1, life=1, alloc=1, need_any=['threw']) for t in MIX], lambda: [ops(ALL, t, THROW, 3, cls=1, life=1, alloc=1, need_any=['threw']) for t in MIX])
more('C12', lambda: [ops(ALL, t, CENSUS, 4, life=1, alloc=1) for t in MIX], lambda: [ops(ALL, t, CENSUS, 6, life=1, alloc=1) for t in MIX])
more('C25', lambda: [ops(ALL, t, NOTHROW, 5, need_any=['nothrow op']) for t in MIX], lambda: [ops(ALL, t, NOTHROW, 7, need_any=['nothrow op']) for t in MIX] + [multi(S('c_default observers_nothrow') + MV, t, NOTHROW, cap=4) for t in MIX])

def large(entries, T, n, mode=CONTENT, cls=0, **k):
    x = dict(k.pop('extra', None) or {}, VP_LARGE=1)
    if cls: x.setdefault('EXTRAMAX', 1)
    g = ops(entries, T, mode, n, cls=cls, extra=x, name='%s%s capacity %d' % ('SO ' if cls else '', T, n), **k)
    g['steps'] = 3000000
    g['bounds'] = '%s, element type %s: capacity %d; start offset, size, positions, counts, lengths and new capacities/sizes each among the lowest two, the middle and the highest two values (counts beyond the room: every 64-bit value); every element value' % ('circular_buffer_space_optimized' if cls else 'circular_buffer', TN[T], n)
    return g

def mlarge(entries, T, n, n2=None, mode=CONTENT, cls=0, **k):
    x = dict(k.pop('extra', None) or {}, VP_LARGE=1)
    if cls: x.setdefault('EXTRAMAX', 1)
    g = multi(entries, T, mode, n, n2, cls=cls, extra=x, name='multi %s%s capacity up to %d' % ('SO ' if cls else '', T, n), **k)
    g['steps'] = 3000000
    g['bounds'] = '%s, element type %s: capacities up to %d (second buffer %d), start offset, size, positions, counts and lengths each among the lowest two, the middle and the highest two values; every element value' % ('circular_buffer_space_optimized' if cls else 'circular_buffer', TN[T], n, n if n2 is None else n2)
    return g

# larger buffers (choices spread over the range) and a trivially copyable class type
LA = {'life': 1, 'alloc': 1}
for i_, e_ in (('C01', C01), ('C02', C02), ('C03', C03), ('C04', C04), ('C07', ['rotate']), ('C08', C08), ('C09', C09)):
    more(i_, lambda e_=e_: [large(e_, 'uint32_t', 40), large(e_, 'ENt', 20), ops(e_, 'EPod', cap=4), large(e_, 'EPod', 20)],
             lambda e_=e_: [large(e_, 'uint32_t', 260)] + [large(e_, t, 67) for t in ALL_T if fits(e_, t, 0)] + [ops(e_, 'EPod', cap=7), large(e_, 'EPod', 67)])
more('C05', lambda: [mlarge(S('index walk at_any'), 'uint32_t', 20), multi(RDX, 'EPod', cap=2)], lambda: [mlarge(S('index walk at_any'), t, 50) for t in ('uint32_t', 'ENt', 'EPod')] + [multi(RDX, 'EPod', cap=4)])
more('C06', lambda: [large(ALL, 'uint32_t', 20, REP), large(['linearize'], 'ENt', 33, REP), ops(['linearize'], 'EPod', REP, 6), large(['linearize'], 'uint32_t', 60, REP)],
            lambda: [large(ALL, 'uint32_t', 60, REP), large(['linearize'], 'uint32_t', 260, REP), large(ALL, 'EPod', 30, REP)] + [large(['linearize'], t, 100, REP) for t in ALL_T])
more('C09', lambda: [mlarge(CT + CP, 'uint32_t', 40, 12), mlarge(CT + CP, 'EPod', 10, 5)], lambda: [mlarge(CT + CP, t, 60, 20) for t in SC + ['EPod'] + ALL_T[:3]])
more('C10', lambda: [mlarge(MV, 'uint32_t', 30, 10), mlarge(MV, 'ENt', 20, 6)], lambda: [mlarge(MV, t, 60, 20) for t in SC + ALL_T])
more('C11', lambda: [mlarge(['compare'], 'uint32_t', 20, 6)], lambda: [mlarge(['compare'], 'uint32_t', 60, 20), mlarge(['compare'], 'ENt', 30, 10)])
more('C12', lambda: [large(ALL, 'ENt', 16, CENSUS, **LA), large(ALL, 'ECopy', 12, CENSUS, **LA), mlarge(CT + CP + MV, 'ENt', 12, 6, CENSUS, **LA)],
            lambda: [large(ALL, t, 40, CENSUS, **LA) for t in ALL_T] + [mlarge(CT + CP + MV, t, 40, 12, CENSUS, **LA) for t in ('ENt', 'ECopy', 'ETm')])
more('C13', lambda: [large(ALL, 'ETm', 10, THROW, need_any=['threw'], **LA)], lambda: [large(ALL, t, 24, THROW, need_any=['threw'], **LA) for t in ALL_T])
more('C14', lambda: [large(C01[:6] + C08[:2], t, 20, STRONG, need_any=['strong'], **LA) for t in ('ETm', 'ECopy')], lambda: [large(C01[:6] + C08[:2], t, 50, STRONG, need_any=['strong'], **LA) for t in ALL_T])
more('C15', lambda: [large(ALL, 'ENt', 16, ALLOCS, alloc=1)], lambda: [large(ALL, t, 40, ALLOCS, alloc=1) for t in ALL_T])
more('C16', lambda: [large(ALL, 'uint32_t', 12, cls=1), ops(ALL, 'EPod', CONTENT, 2, cls=1)], lambda: [large(ALL, 'uint32_t', 20, cls=1), large(ALL, 'ENt', 14, cls=1), ops(ALL, 'EPod', CONTENT, 4, cls=1)])
more('C17', lambda: [large(ALL, 'uint32_t', 14, MEM, cls=1)], lambda: [large(ALL, 'uint32_t', 24, MEM, cls=1), large(ALL, 'ENt', 14, MEM, cls=1)])
more('C18', lambda: [large(C01 + C02 + C04 + C08, 'ETm', 6, THROW, cls=1, **LA)], lambda: [large(ALL, t, 8, THROW, cls=1, **LA) for t in ALL_T])
more('C19', lambda: [large(ALL, 'uint32_t', 14, CONTENT, debug=1), large(ALL, 'ENt', 10, STABLE, debug=1)], lambda: [large(ALL, t, 24, CONTENT, debug=1) for t in SC + ALL_T] + [large(ALL, t, 24, STABLE, debug=1) for t in SC + ALL_T])
more('C20', lambda: [large(ALL, 'uint32_t', 9, INVAL, debug=1, need=[], need_any=['invalidated', 'assertion'])], lambda: [large(ALL, t, 16, INVAL, debug=1, need=[], need_any=['invalidated', 'assertion']) for t in SC + ALL_T])
more('C21', lambda: [large(ALL, 'uint32_t', 30, STABLE, need_any=['survivor']), large(ALL, 'ENt', 16, STABLE, need_any=['survivor'])], lambda: [large(ALL, t, 60, STABLE, need_any=['survivor']) for t in SC + ALL_T])
NOIN = [e for e in ALL if not e.endswith('_in')]
more('C23', lambda: [large(NOIN, 'ENt', 20, COUNT, need_any=['counted'])], lambda: [large(NOIN, t, 60, COUNT, need_any=['counted']) for t in ALL_T])
more('C24', lambda: [large(ALL, t, 16, FROM, extra={'VP_FROM': 1}, need_any=['moved']) for t in ('ENt', 'ETm')], lambda: [large(ALL, t, 40, FROM, extra={'VP_FROM': 1}, need_any=['moved']) for t in ('ENt', 'ETm', 'EMo')])
more('C25', lambda: [large(ALL, 'ETm', 16, NOTHROW, need_any=['nothrow op'])], lambda: [large(ALL, t, 40, NOTHROW, need_any=['nothrow op']) for t in ALL_T])
more('C29', lambda: [large(ALL, 'ENt', 10, FILL, debug=1, need_any=['free slot'])], lambda: [large(ALL, t, 20, FILL, debug=1, need_any=['free slot']) for t in SC + ALL_T])
MS = {'VP_MAXSIZE': 1}
more('C15', lambda: [multi(LN0 + ['len_fits'], t, cap=2, extra=MS) for t in ('uint32_t', 'uint8_t', 'ENt')], lambda: [multi(LN0 + ['len_fits'], t, cap=4, extra=MS) for t in ('uint32_t', 'uint8_t', 'ENt', 'ECopy')])
# integral count and value arguments of the adaptor's constructor
def ints(cap):
    g = multi(S('c_ii c_capii'), 'uint32_t', cap=cap, cls=1, extra={'VP_INTS': 1}, name='adaptor, integral arguments')
    g['twin'] = {'VP_CLASS': 0}; g['twin_what'] = 'the adaptor cannot be constructed from an integral count and value although circular_buffer can'
    return [g]
more('C16', lambda: ints(3), lambda: ints(5))

COMMON_ASSUMPTIONS = [
    'the library is encoded as clang 18 -O1 LLVM IR for x86-64, C++20; other compilers and language levels are outside',
    'std/boost headers below the library are executed as part of the encoding; malloc, operator new, memmove, memset and the exception runtime are modelled by the engine',
    'loops are unrolled as far as the stated sizes require; a path exceeding the step bound is reported, not dropped',
]

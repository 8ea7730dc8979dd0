"""The units (contracts and the functions they bind) and the properties they decide."""
import os

from vc.runner import Unit, REPO

TRUSTED = [
    'CBMC 6.11.0 (goto-cc, goto-instrument, cbmc) and its SAT back end; cvc5 where named',
    'models/*.h: executable contracts assumed for GLib, libgsf and libc functions',
    'g_autofree cleanups are not executed by CBMC (memory released at scope exit is not tracked)',
    'allocation succeeds; signed arithmetic wraps (two\'s complement) unless a unit checks overflow',
]

EXPL = ('Obligations generated from the real functions under executable contracts and discharged by CBMC for all '
        'inputs within the stated sizes; the sizes are bounds, so nothing is counted as proved.')
UNITS = {}


def U(name, file, kind, **kw):
    UNITS[name] = Unit(name, file, kind, **kw)
    return name


PROPS = {}

# --- P01 stream names -------------------------------------------------------
U('sn_digits', 'streamname.c', 'complete', defs=['U_DIGITS'], funcs=['utf2mime', 'mime2utf'])
for n in range(1, 9):
    for t in (0, 1):
        U('sn_%s%d' % ('tab' if t else 'raw', n), 'streamname.c', 'bounded',
          defs=['BOUND=%d' % n, 'VN=%d' % n, 'VH_CAP=%d' % (3 * n + 3)] + (['U_TABLE'] if t else []),
          unwind=n + 2, unwindset='vh_strlen.0:%d' % (3 * n + 2),
          funcs=['encode_streamname', 'decode_streamname'], bound='names of exactly %d bytes' % n)
U('sn_long', 'streamname.c', 'bounded', defs=['U_LONG'], unwind=90, unwindset='vh_strlen.0:200', flags=['--max-field-sensitivity-array-size', '200'], object_bits=12,
  funcs=['encode_streamname', 'decode_streamname'], bound='names of 8, 29 to 31, and 57 to 64 fixed characters of the packed alphabet')
PROPS['P01'] = dict(level='other', explanation=EXPL, units=['sn_digits'] + ['sn_%s%d' % (t, n) for t in ('tab', 'raw') for n in range(1, 8)] + ['sn_long'],
                    thorough=['sn_tab8', 'sn_raw8'])

# --- P02..P04 string pool ---------------------------------------------------
CONV = 'code page conversion: g_convert_with_iconv/gsf_msole_iconv_* are modelled as a length-changing injective map per code page'
for n in (1, 2, 3, 4):
    for t in (0, 1, 2):
        U('st_add%d_%d' % (n, t), 'strtab.c', 'bounded', defs=['U_ADD', 'VN=%d' % n, 'TL=%d' % t], unwind=max(n + 4, 5),
          funcs=['_libmsi_add_string', 'st_find_free_entry', 'set_st_entry', 'insert_string_sorted', 'find_insert_index',
                 '_libmsi_id_from_string_utf8', 'msi_string_lookup_id'], reach=n > 1 and t > 0,
          bound='pools of %d entries with texts of up to 2 bytes, adding a text of %d bytes' % (n, t))
    U('st_look%d' % n, 'strtab.c', 'bounded', defs=['U_LOOK', 'VN=%d' % n], unwind=max(n + 3, 5),
      funcs=['_libmsi_id_from_string_utf8', 'msi_string_lookup_id'], bound='pools of %d entries, texts of up to 2 bytes' % n)
for n in (2, 3):
    U('st_pfx_look%d' % n, 'strtab.c', 'bounded', defs=['U_LOOK', 'VN=%d' % n, 'PFX=300'], unwind=306, unwindset='_libmsi_id_from_string_utf8.0:5,find_insert_index.0:5,st_find_free_entry.0:5,st_find_free_entry.1:5', flags=['--max-field-sensitivity-array-size', '310'],
      funcs=['_libmsi_id_from_string_utf8', 'msi_string_lookup_id'], bound='pools of %d entries, texts of up to 2 bytes after 300 equal ones' % n)
LENSETS = {1: '1', 2: '1,2,255,256,0xfffe,0xffff,0x10000,0x10001,0x1ffff,0x20000,0x1000000,0x3ffffff', 3: '1,0xffff,0x10000,0x12345', 4: '0x10000'}
for n in (1, 2, 3, 4):
    U('st_round%d' % n, 'strtab.c', 'bounded', object_bits=14, defs=['U_ROUND', 'VN=%d' % n, 'LENS=' + LENSETS[n]], unwind=2 * n + 4,
      unwindset='write_stream_data.0:%d,vh_main.3:400' % (8 * n + 2), 
      funcs=['msi_save_string_table', 'string_totalsize', '_libmsi_string_id', 'msi_load_string_table', 'msi_addstring',
             'init_stringtable'], bound='pools of %d entries: unused, not saved, and texts of %s bytes' % (n, LENSETS[n]), assumes=[CONV])
PROPS['P02'] = dict(level='other', units=['st_add%d_%d' % (n, t) for n in (1, 2, 3, 4) for t in (0, 1, 2)] + ['st_look%d' % n for n in (2, 3, 4)] + ['st_pfx_look2', 'st_pfx_look3'], explanation=EXPL)
PROPS['P03'] = dict(level='other', units=['st_round%d' % n for n in (1, 2, 3, 4)], explanation=EXPL)
LOADS = []
for ps in (0, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16):
    LOADS.append(U('st_load%d' % ps, 'strtab.c', 'bounded', defs=['U_LOAD', 'PS=%d' % ps, 'DS=3'],
      unwind=max(6, ps // 4 + 2), unwindset='vh_main.0:%d,vh_main.1:5' % (ps + 2),
      funcs=['msi_load_string_table', 'msi_addstring', 'init_stringtable', 'msi_destroy_stringtable'],
      bound='pool streams of %d bytes, data streams of 3 bytes' % ps, assumes=[CONV], reach=ps >= 8))
PROPS['P04'] = dict(level='other', units=LOADS, explanation=EXPL)

# --- P05 tables -------------------------------------------------------------
TF = ['_libmsi_database_commit_tables', 'save_table', 'write_stream_data', 'encode_streamname', 'get_table', 'table_get_column_info',
      'get_tablecolumns', 'get_defaulttablecolumns', 'table_calc_column_offsets', 'read_table_from_storage', 'read_stream_data', 'table_view_create', 'table_view_exists',
      'table_view_get_dimensions', 'table_view_get_column_info', 'table_view_fetch_int', 'bytes_per_column', 'msi_table_get_row_size', 'read_table_int']
P05 = []
for cfg in range(6):
    for sr in (2, 3):
        for nr, pers in ((0, 0), (3, 7), (1, 1)) if sr == 3 else ((2, 3), (3, 5), (3, 6), (2, 0)):
            P05.append(U('tb_round%d_%d_%d_%d' % (cfg, sr, nr, pers), 'table.c', 'bounded', defs=['U_ROUND', 'CFG=%d' % cfg, 'SR=%d' % sr, 'NR=%d' % nr, 'PERS=%d' % pers],
                         unwind=60, object_bits=10, flags=['--max-field-sensitivity-array-size', '100'], funcs=TF,
                         bound='tables of %d rows, %s of them temporary, of one of 6 column layouts' % (nr, nr - bin(pers).count('1') or 'none')))
PROPS['P05'] = dict(level='other', units=P05, explanation=EXPL)

# --- P07..P10 operations on tables --------------------------------------------
OPF = ['table_view_insert_row', 'table_validate_new', 'msi_table_find_row', 'msi_row_matches', 'msi_record_to_row', 'find_insert_index', 'compare_record',
       'get_table_value_from_record', 'table_create_new_row', 'table_view_set_row', 'table_view_set_int', 'table_view_delete_row', 'table_view_fetch_int',
       'table_view_find_matching_rows', 'libmsi_record_get_int', '_libmsi_record_get_string_raw', 'libmsi_record_is_null']
def ops(name, reach=True, **d):
    return U(name, 'table.c', 'bounded', reach=reach, defs=['U_OPS'] + ['%s=%s' % kv for kv in d.items()], unwind=40, object_bits=10,
             flags=['--max-field-sensitivity-array-size', '100'], funcs=OPF, bound='tables of %s rows' % d['NR'])
INS, SETR, DEL = [], [], []
NCOL = [2, 4, 3, 4, 1, 3]
for cfg, nr, nul, row in ((0, 0, 0, -1), (0, 1, 2, -1), (0, 2, 0, -1), (0, 3, 0, -1), (1, 1, 0, -1), (1, 1, 12, -1), (1, 2, 4, -1), (1, 2, 8, -1),
                          (3, 1, 2, -1), (3, 2, 10, -1), (3, 2, 4, -1), (4, 3, 0, -1), (4, 1, 1, -1), (5, 1, 1, 0), (5, 2, 2, 0), (5, 2, 7, 0), (5, 2, 4, -1), (6, 0, 0, -1)):
    for temp in ('false', 'true') if nul == 0 and cfg < 4 and 0 < nr < 3 else ('false',):
        INS.append(ops('tb_ins%d_%d_%d%s' % (cfg, nr, nul, 't' if temp == 'true' else ''), OP=1, CFG=cfg, NR=nr, NUL=nul, ROW=row, TEMP=temp, reach=(cfg, nul) not in ((3, 4), (4, 1))))
for cfg, nr, nul, row, mask in ((0, 2, 0, 0, 2), (0, 2, 2, 1, 2), (0, 1, 0, 0, 3), (1, 2, 0, 1, 0xc), (1, 2, 8, 0, 8), (1, 1, 0, 0, 4), (3, 2, 0, 0, 6), (3, 2, 2, 1, 0xe),
                                (3, 3, 0, 1, 8), (5, 2, 7, 0, 7), (5, 2, 0, 1, 0), (4, 1, 0, 0, 1)):
    SETR.append(ops('tb_set%d_%d_%d_%d' % (cfg, nr, nul, mask), OP=2, CFG=cfg, NR=nr, NUL=nul, ROW=row, MASK=mask))
for cfg, nr, row in ((0, 1, 0), (0, 3, 0), (0, 3, 1), (0, 3, 2), (0, 2, 2), (1, 2, 0), (2, 2, 1), (3, 2, 0), (5, 2, 1), (0, 0, 0), (0, 2, 7)):
    DEL.append(ops('tb_del%d_%d_%d' % (cfg, nr, row), OP=3, CFG=cfg, NR=nr, ROW=row, reach=row < nr))
GET = []
for cfg, op, nr, row, nul in ((0, 0, 2, 0, 0), (1, 0, 2, 0, 0), (3, 0, 2, 0, 0), (4, 0, 1, 0, 0), (5, 0, 2, 0, 0)):
    GET.append(ops('tb_get%d_%d_%d%s' % (cfg, op, nr, nul or ''), OP=op, CFG=cfg, NR=nr, ROW=row, NUL=nul, U_GETROW=1))

MAL = []
for sr in (2, 3):
    for a in range(6):
        for b in range(5):
            if sr == 3 and a and b: continue
            MAL.append(U('tb_mal%d_%d_%d' % (sr, a, b), 'table.c', 'bounded', defs=['U_MAL', 'CFG=3', 'SR=%d' % sr, 'TS=%d' % (9 if sr == 2 else 11), 'SZ0=0', 'MA=%d' % a, 'MB=%d' % b],
              unwind=60, object_bits=12, flags=['--max-field-sensitivity-array-size', '100'], reach=False,
              funcs=TF, bound='catalogues of 3 columns with 30 combinations of odd numbers and types, table streams of up to 11 bytes'))
SLOW = ['tb_ins1_2_4', 'tb_ins1_1_0t', 'tb_ins3_1_2', 'tb_ins5_2_4']
PROPS['P06'] = dict(level='other', units=[u for u in MAL if u.startswith('tb_mal2') and (int(u[-1]) + int(u[-3]) & 1 or u[-1] == '1' or u[-3] == '1')], thorough=MAL, explanation=EXPL)
PROPS['P07'] = dict(level='other', units=GET + SETR + ['tb_ins0_1_2', 'tb_ins0_2_0', 'tb_ins1_1_0', 'tb_ins1_1_12', 'tb_ins3_2_10', 'tb_ins4_3_0', 'tb_ins5_2_2', 'tb_ins5_2_7', 'tb_ins6_0_0'], thorough=INS, explanation=EXPL)
PROPS['P08'] = dict(level='other', units=[u for u in INS if u not in SLOW], thorough=INS, explanation=EXPL)
PROPS['P09'] = dict(level='other', units=DEL + SETR + ['tb_ins0_2_0', 'tb_ins0_2_0t', 'tb_ins0_3_0', 'tb_ins5_2_2', 'tb_ins1_1_12', 'tb_ins3_2_10', 'tb_ins4_3_0', 'tb_ins6_0_0'], thorough=INS, explanation=EXPL)



def sql_extract(env, d):
    """The code as it is, but: the trailing arrays of one element in where.c and select.c are
    declared with as many as the query has tables or columns (they are allocated with that
    many, and CBMC does not follow accesses past the declared one); the unions of query.h
    and of the generated parser are structs (no code reads a member other than the one it
    wrote, and CBMC loses pointers read from a union)."""
    os.makedirs(d + '/sqlx', exist_ok=True)
    for src, *subs in ((env.gen + '/sql-parser.c', ('YYSTYPE yylval YY_INITIAL_VALUE (= yyval_default);', 'YYSTYPE yylval = { .query = (void *)1 };')),
                       (env.gen + '/sql-parser.h',), (REPO + '/libmsi/query.h', ('    union\n', '    struct\n')),
                       (REPO + '/libmsi/where.c', ('unsigned values[1];', 'unsigned values[TABLES];'),
                        ('columns[1];', 'columns[NKEYS ? NKEYS : 1];')), (REPO + '/libmsi/select.c', ('cols[1];', 'cols[MAXCOLS];'))):
        with open(src) as f:
            text = f.read()
        for old, new in subs + [('union SQL_STYPE', 'struct SQL_STYPE'), ('union ext_column', 'struct ext_column')]:
            text = text.replace(old, new)
        with open(d + '/sqlx/' + os.path.basename(src), 'w') as f:
            f.write(text)


def sql_unwind(nr):
    """bounds of the loops that run over rows, columns, parameters or short texts"""
    fs = {'vh_strdup': 4, 'vh_same': 4, 'expr_int_from_string': 4, 'distinct_free': nr + 2, 'distinct_insert': nr + 2, 'distinct_view_execute': nr + 3}
    fs.update((f, 6) for f in ('update_view_execute', 'delete_view_execute', 'where_view_delete_row', 'where_view_set_row', 't_delete_row'))
    return ','.join('%s.%d:%d' % (f, i, n) for f, n in fs.items() for i in range(6)) + ',distinct_free:4'


SQLF = ['sql_lex', 'sql_get_token', 'sql_parse', 'build_expr_complex', 'build_expr_unary', 'build_expr_column', 'build_expr_ival', 'build_expr_sval', 'build_expr_wildcard',
        '_libmsi_query_open', '_libmsi_query_execute', '_libmsi_query_get_row']
WHEREF = ['where_view_create', 'where_view_verify_condition', 'where_view_execute', 'check_condition', 'where_view_evaluate', 'expr_eval_binary', 'expr_eval_unary', 'expr_eval_string',
          'expr_eval_strcmp', 'expr_fetch_value', 'reorder_check', 'init_reorder', 'add_row', 'find_row', 'find_table', 'parse_column', 'ordertables', 'add_to_array', 'in_array', 'compare_entry',
          'where_view_sort', 'where_view_fetch_int', 'where_view_get_dimensions', 'where_view_get_column_info', 'select_view_create', 'select_view_fetch_int', 'select_view_execute']


def sql(q, *defs, nr=2, tier='quick', funcs=()):
    name = 'sq_%d%s' % (q, ''.join('_' + x.replace('=', '').lower() for x in defs) + ('_r%d' % nr if nr != 2 else ''))
    if nr != 2:
        defs += ('NRA=%d' % nr,)
    return U(name, 'sql.c', 'bounded', defs=['Q=%d' % q] + list(defs), unwind=60, object_bits=12, unwindset=sql_unwind(nr), extract=sql_extract, tier=tier,
             flags=['--max-field-sensitivity-array-size', '210'], drop=['distinct_free'] if 60 <= q < 70 else [], funcs=SQLF + list(funcs), timeout=400,
             bound='query %d of harness/sql_cases.h over tables of %d rows of arbitrary values and arbitrary parameters' % (q, nr))


SQ = {q: sql(q, funcs=f) for qs, f in ((list(range(22)) + list(range(30, 40)), WHEREF), (range(50, 56), WHEREF), (range(60, 65), WHEREF + ['distinct_view_create', 'distinct_view_execute', 'distinct_insert', 'distinct_view_fetch_int']),
      (range(70, 74), ['select_view_create', 'select_view_fetch_int', 'select_view_get_column_info']), (range(100, 105), ['update_view_create', 'update_view_execute', 'where_view_set_row'] + WHEREF),
      (range(110, 115), ['insert_view_create', 'insert_view_execute', 'msi_arrange_record', 'msi_query_merge_record', 'msi_columns_in_order', 'row_has_null_primary_keys']), (range(120, 124), ['delete_view_create', 'delete_view_execute', 'where_view_delete_row'] + WHEREF),
      (range(140, 155), [])) for q in qs}
D2 = [sql(61, 'TIMES=2', funcs=['distinct_view_execute']), sql(60, nr=3, funcs=['distinct_view_execute', 'distinct_insert'])]
TOK = [U('tok_any', 'sqltok.c', 'bounded', defs=['U_TOK', 'LEN=5'], unwind=40, funcs=['sql_get_token'], bound='texts of up to 5 bytes'),
       U('tok_str', 'sqltok.c', 'bounded', defs=['U_STR', 'LEN=6'], unwind=14, funcs=['sql_unescape_string', 'parser_alloc'], bound='texts of up to 6 bytes')]
for n in range(1, 13):
    TOK.append(U('tok_word%d' % n, 'sqltok.c', 'bounded', defs=['U_WORD', 'LEN=%d' % n], unwind=40, funcs=['sqlite_find_keyword', 'sql_compare_keyword'], bound='words of %d letters' % n))
for n, pfx in [(n, '') for n in range(1, 9)] + [(10, p) for p in ('2147', '9999', '0012')] + [(11, p) for p in ('2147483', '02147', '9999')]:
    TOK.append(U('tok_num%d%s' % (n, '_' + pfx if pfx else ''), 'sqltok.c', 'bounded', defs=['U_NUM', 'LEN=%d' % n, 'AT=%d' % (n & 1)] + (['PFX=' + pfx] if pfx else []), unwind=14,
                 funcs=['sql_atoi'], bound='numbers of %d bytes%s' % (n, ' that begin with ' + pfx if pfx else '')))
ORDERQ = [50, 51, 52, 53, 54, 55, 145, 152]
PROPS['P10'] = dict(level='other', units=[SQ[q] for q in list(range(22)) + list(range(30, 40)) + [144]], explanation=EXPL)
PROPS['P11'] = dict(level='other', units=[SQ[q] for q in ORDERQ], explanation=EXPL)
PROPS['P12'] = dict(level='other', units=[SQ[q] for q in range(60, 65)] + D2, explanation=EXPL)
PROPS['P13'] = dict(level='other', units=[SQ[q] for q in list(range(70, 74)) + list(range(100, 105)) + list(range(110, 115)) + list(range(120, 124)) + [146, 147, 148, 149, 153]], explanation=EXPL)
PROPS['P14'] = dict(level='other', units=[SQ[q] for q in (140, 141, 142, 143, 150, 151, 154)] + TOK, explanation=EXPL)

ADDROW = [U('wh_rows%d_%d_%d%s' % (a, b, t, 'i' if x else ''), 'addrow.c', 'bounded', defs=['S=%d' % a, 'N=%d' % b, 'NT=%d' % t] + x, unwind=70, flags=['--max-field-sensitivity-array-size', '100'],
            funcs=['add_row', 'init_reorder'], bound='results of %d rows of %d tables' % (b, t))
          for a, b, t, x in ((2, 2, 1, []), (16, 16, 2, []), (16, 15, 3, []), (1, 0, 2, ['INIT']), (32, 32, 1, []))]
PROPS['P10']['units'] += ADDROW

# --- P15 records -----------------------------------------------------------------
RECF = ['libmsi_record_set_int', 'libmsi_record_get_int', 'libmsi_record_set_string', '_libmsi_record_get_string_raw', 'libmsi_record_is_null', 'libmsi_record_clear', '_libmsi_record_set_gsf_input',
        '_libmsi_record_get_gsf_input', '_libmsi_record_load_stream', '_libmsi_record_copy_field', '_libmsi_free_field', 'libmsi_record_get_field_count', 'libmsi_record_constructed']
REC = []
def rec(op, funcs=(), **d):
    REC.append(U('rec_%d_%s' % (op, '_'.join(str(v) for v in d.values())), 'record.c', 'bounded', defs=['OP=%d' % op] + ['%s=%s' % kv for kv in d.items()], unwind=20, object_bits=10,
                 funcs=RECF + list(funcs), bound='records of fields 0 to 2, texts of up to 3 bytes'))
for kind in (57, 27, 35, 5):
    for f in range(4):
        for op in (1, 2, 3, 4):
            rec(op, KIND=kind, FIELD=f)
    rec(5, KIND=kind, FIELD=1)
    rec(8, KIND=kind, FIELD=1, funcs=['_libmsi_record_clone', '_libmsi_record_compare'])
    for f, g in ((1, 0), (1, 2), (0, 1), (2, 3), (3, 1), (2, 1), (2, 2), (0, 0)):
        rec(6, KIND=kind, FIELD=f, FROM=g, KIND2=27)
        if (f, g) != (0, 0): rec(7, KIND=kind, FIELD=f, FROM=g)
for k1, k2 in ((57, 57), (41, 41), (41, 9), (0, 0), (21, 21), (42, 42)):
    rec(9, KIND=k1, FIELD=1, KIND2=k2, funcs=['_libmsi_record_compare', '_libmsi_record_compare_fields'])
for f in range(4):
    rec(10, KIND=34, FIELD=f, funcs=['_libmsi_record_get_string', 'strcpyn', 'msi_dup_record_field'])
for n, pfx in ((1, ''), (2, ''), (4, ''), (6, ''), (11, '-429496'), (16, '100000000000'), (10, '21474')):
    rec(11, KIND=57, FIELD=1, LEN=n, funcs=['expr_int_from_string'], **({'PFX': pfx} if pfx else {}))
PROPS['P15'] = dict(level='other', units=REC, explanation=EXPL)

# --- P16 statements of msibuild ---------------------------------------------------
DEL_T = [U('st_%d_%d' % (t, f), 'delim.c', 'bounded', defs=['LEN=12', 'T=%d' % t, 'FAIL=%d' % f], unwind=14, funcs=['sql_get_statement', 'sql_skip_token'], bound='text %d of harness/delim.c' % t)
         for t in range(15) for f in (0, 1, 2)]
DEL_S = [U('st_token', 'delim.c', 'bounded', defs=['U_SKIP', 'LEN=7'], unwind=12, funcs=['sql_skip_token'], bound='texts of up to 7 bytes')]
DEL_S += [U('st_word%d' % n, 'delim.c', 'bounded', defs=['U_WORD', 'LEN=%d' % n], unwind=16, funcs=['sqlite_find_keyword', 'sql_compare_keyword'], bound='words of %d letters' % n) for n in range(1, 13)]
PROPS['P16'] = dict(level='other', units=DEL_T + DEL_S, explanation=EXPL)

# --- P17 summary information --------------------------------------------------------
SIF = 'libmsi/libmsi-summary-info.c'
SI = [U('si_type', 'suminfo.c', 'complete', defs=['U_TYPE'], funcs=['get_type'], bound='all identifiers'),
      U('si_layout', 'suminfo.c', 'complete', defs=['U_LAYOUT', 'MAXW=255'], unwind=21, object_bits=10, swap=['write_property_to_data:vh_put', 'write_dword:vh_dword'], native=False, timeout=600,
        solver=['--sat-solver', 'cadical'], funcs=['suminfo_persist', 'get_property_count', 'write_word'], bound='all sets of properties, of up to 1020 bytes each'),
      U('si_entry', 'suminfo.c', 'complete', defs=['U_ENTRY'], unwind=21, unwindset='read_properties_from_data.0:2', object_bits=10, swap=['parse_filetime:vh_parse_filetime'],
        funcs=['read_properties_from_data', 'read_dword', 'free_prop'], bound='sections of one entry and any size below 2^28'),
      U('si_header', 'suminfo.c', 'complete', defs=['U_HEADER'], unwind=21, object_bits=10, swap=['read_properties_from_data:vh_section'], native=False,
        funcs=['load_summary_info', 'read_word'], bound='streams of any size below 2^28')]
for vt in (2, 3, 30, 64):
    SI.append(U('si_write%d' % vt, 'suminfo.c', 'complete', defs=['U_WRITE', 'VT=%d' % vt], unwind=21, object_bits=10, funcs=['write_property_to_data', 'write_string', 'write_filetime', 'write_dword'],
                bound='all values, texts below 2^28 bytes'))
    SI.append(U('si_read%d' % vt, 'suminfo.c', 'complete', defs=['U_READ', 'VT=%d' % vt], unwind=21, unwindset='read_properties_from_data.0:2', object_bits=10, swap=['parse_filetime:vh_parse_filetime'],
                funcs=['read_properties_from_data', 'read_dword'], bound='an entry at any place of a section below 2^28 bytes'))
for s in (1, 2, 3):
    for nt in ((0, 1, 5) if s == 3 else (0,)):
        SI.append(U('si_api%d_%d' % (s, nt), 'suminfo.c', 'bounded', defs=['U_API', 'SET=%d' % s, 'NT=%d' % nt], unwind=24, object_bits=10,
                    funcs=['_libmsi_summary_info_set_property', 'libmsi_summary_info_set_string', 'libmsi_summary_info_set_int', 'libmsi_summary_info_set_filetime', '_summary_info_get_property', 'libmsi_summary_info_get_string',
                           'libmsi_summary_info_get_int', 'libmsi_summary_info_get_filetime', 'libmsi_summary_info_get_property_type'], bound='texts of %d bytes' % nt))
U('si_layout_big', 'suminfo.c', 'complete', defs=['U_LAYOUT'], unwind=21, object_bits=10, swap=['write_property_to_data:vh_put', 'write_dword:vh_dword'], native=False, timeout=1500,
  solver=['--sat-solver', 'cadical'], funcs=['suminfo_persist', 'get_property_count', 'write_word'], bound='all sets of properties, of up to 2^20 bytes each')
PROPS['P17'] = dict(level='other', units=SI, thorough=['si_layout_big'], explanation=EXPL)

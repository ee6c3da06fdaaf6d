"""What each property's check explores: harnesses, bounds, required witnesses."""
COMMON = []
P = {}
def prop(pid, title, harness, assumptions=()):
    P[pid] = dict(title=title, harness=harness, assumptions=list(assumptions))
def H(file, entry, bounds, quick=None, thorough=None, covers=('ran',), unit='core', **kw):
    d = dict(file=file, entry=entry, unit=unit, bounds=bounds, quick=quick or {}, covers=list(covers), **kw)
    if thorough is not None: d['thorough'] = thorough
    return d

prop('P01', 'operators', [
    H('p_ops.c', 'h_ops', 'lines of N commands', dict(N=4), dict(N=5)),
    H('p_ops.c', 'h_blocks', 'nested blocks', dict(M=3, DEPTH=1), dict(M=3, DEPTH=2)),
    H('p_ops.c', 'h_script', 'scripts'),
    H('p_ops.c', 'h_chain', 'scripts'), H('p_ops.c', 'h_level', ''),
])
prop('P02', 'redirections', [
    H('p_red.c', 'h_red', ''), H('p_red.c', 'h_red_pos', ''), H('p_red.c', 'h_red_quoted', ''), H('p_red.c', 'h_red_nest', '', dict(DEPTH=1), dict(DEPTH=2)),
    H('p_red.c', 'h_red_in', ''), H('p_red.c', 'h_red_bad', ''), H('p_red.c', 'h_red_look', ''),
])
prop('P03', 'pipes', [
    H('p_pipe.c', 'h_pipe_filter', ''), H('p_pipe.c', 'h_pipe_iso', ''), H('p_pipe.c', 'h_pipe_ops', ''), H('p_pipe.c', 'h_pipe_err', ''),
])
prop('P04', 'arguments', [
    H('p_args.c', 'h_args_label', '', dict(NA=2), dict(NA=3)), H('p_args.c', 'h_args_file', '', dict(NA=2), dict(NA=3)), H('p_args.c', 'h_args_many', ''), H('p_args.c', 'h_args_argv', ''), H('p_args.c', 'h_args_nest', ''),
])
prop('P05', 'expansion', [
    H('p_exp.c', 'h_exp_sub', '', dict(NV=3),dict(NV=5)), H('p_exp.c', 'h_exp_sub_huge', ''), H('p_exp.c', 'h_exp_rep', '', dict(NV=3), dict(NV=4)), H('p_exp.c', 'h_exp_def', ''), H('p_exp.c', 'h_exp_line', '', dict(NT=3),dict(NT=4)),
])
prop('P06', 'delayed expansion', [
    H('p_exp.c', 'h_exp_line_delayed', '', dict(NT=3),dict(NT=4)),H('p_exp.c', 'h_exp_when', ''), H('p_exp.c', 'h_exp_once', ''), H('p_exp.c', 'h_exp_inert', ''), H('p_exp.c', 'h_exp_dyn', ''),
])
prop('P07', 'text', [
    H('p_text.c', 'h_text', '', dict(NT=3),dict(NT=4)), H('p_text.c', 'h_text_nested', ''), H('p_text.c', 'h_text_comment', ''),H('p_text.c', 'h_text_onoff', ''), H('p_text.c', 'h_text_at', ''),
])
prop('P08', 'variables', [
    H('p_env.c', 'h_env_ops', '', dict(NOP=3),dict(NOP=3,NNAME=6)), H('p_env.c', 'h_env_list', ''), H('p_env.c', 'h_env_bytes', ''), H('p_env.c', 'h_env_init', ''), H('p_env.c', 'h_env_many', ''), H('p_env.c', 'h_env_unknown', ''),
])
prop('P09', 'setlocal', [
    H('p_env.c', 'h_loc_ops', '', dict(NOP=5),dict(NOP=6)), H('p_env.c', 'h_loc_call', ''), H('p_env.c', 'h_loc_keep', ''), H('p_env.c', 'h_loc_bad', ''),
])
prop('P10', 'for /f', [
    H('p_for.c', 'h_forf_tok', '', dict(NT=4),dict(NT=6)), H('p_for.c', 'h_forf_lines', '', dict(NC=4),dict(NC=5)), H('p_for.c', 'h_forf_files', ''), H('p_for.c', 'h_forf_vars', ''), H('p_for.c', 'h_forbad', ''),
])
prop('P11', 'for', [
    H('p_for.c', 'h_forl', ''), H('p_for.c', 'h_forlist', '', dict(NS=2),dict(NS=3)), H('p_for.c', 'h_forglob', ''), H('p_for.c', 'h_forbody', ''),  H('p_if.c', 'h_if_level', ''),
])
prop('P12', 'if', [
    H('p_if.c', 'h_if_dec', '', dict(ND=2),dict(ND=3)), H('p_if.c', 'h_if_tab', ''), H('p_if.c', 'h_if_str', '', dict(NS=2),dict(NS=3)), H('p_if.c', 'h_if_eq', ''), H('p_if.c', 'h_if_obj', ''), H('p_if.c', 'h_if_branch', ''), H('p_if.c', 'h_if_val', ''), H('p_if.c', 'h_if_level', '', dict(NL_=2), dict(NL_=3)),
])
prop('P13', 'if exp', [
    H('p_if.c', 'h_if_exp', '', dict(EDEPTH=1,ELEN=1),dict(EDEPTH=2,ELEN=1)), H('p_if.c', 'h_if_flat', '', dict(NT=3),dict(NT=4)), H('p_if.c', 'h_if_expval', ''), H('p_if.c', 'h_if_badexp', ''),
])
prop('P14', 'set /a', [
    H('p_seta.c', 'h_seta_ops', '', dict(NOPS=2),dict(NOPS=3)), H('p_seta.c', 'h_seta_float', ''), H('p_seta.c', 'h_seta_num', ''), H('p_seta.c', 'h_seta_name', '', dict(NNM=2), dict(NNM=3)), H('p_seta.c', 'h_seta_assign', ''), H('p_seta.c', 'h_seta_list', ''), H('p_seta.c', 'h_seta_store', ''),
])
prop('P15', 'shift', [
    H('p_shift.c', 'h_shift_one', ''), H('p_shift.c', 'h_shift_seq', '', dict(NOP=2), dict(NOP=3)), H('p_shift.c', 'h_shift_loop', ''), H('p_shift.c', 'h_shift_bad', ''),
])
prop('P16', 'labels and scripts', [
    H('p_goto.c', 'h_goto_find', '', dict(NL=2), dict(NL=3)), H('p_goto.c', 'h_goto_walk', '', dict(NS=3), dict(NS=4)), H('p_goto.c', 'h_call_ret', ''), H('p_goto.c', 'h_call_deep', ''), H('p_goto.c', 'h_goto_file', ''), H('p_goto.c', 'h_read', '', dict(NS=3), dict(NS=4)), H('p_goto.c', 'h_read_long', ''), H('p_goto.c', 'h_reload', ''), H('p_goto.c', 'h_replace', ''),
])
prop('P17', 'def', [
    H('p_def.c', 'h_def_params', '', dict(NT=2), dict(NT=3)), H('p_def.c', 'h_def_nine', ''), H('p_def.c', 'h_def_local', '', dict(NOP=2), dict(NOP=3)), H('p_def.c', 'h_def_names', '', dict(NDEF=2), dict(NDEF=3)), H('p_def.c', 'h_def_list', ''), H('p_def.c', 'h_def_run', ''), H('p_def.c', 'h_def_bad', ''),
])
prop('P18', 'directories', [
    H('p_dir.c', 'h_cd_path', '', dict(NC=2), dict(NC=3)), H('p_dir.c', 'h_cd_seq', '', dict(NOP=3), dict(NOP=4)), H('p_dir.c', 'h_cd_scope', ''), H('p_dir.c', 'h_cd_canon', '', dict(NC=3), dict(NC=5)),
])
prop('P19', 'wildcards', [
    H('p_wild.c', 'h_wild_match', '', dict(NR=3, NM=4), dict(NR=4, NM=4)), H('p_wild.c', 'h_wild_dir', ''), H('p_wild.c', 'h_wild_abs', ''),
])
prop('P20', 'modifiers', [
    H('p_mod.c', 'h_mod_path', '', dict(NV=3,NF=2), dict(NV=4,NF=3)), H('p_mod.c', 'h_mod_quote', '', dict(NV=4), dict(NV=6)), H('p_mod.c', 'h_mod_greedy', '', dict(NF=2), dict(NF=3)), H('p_mod.c', 'h_mod_info', '', dict(NF=2), dict(NF=3)), H('p_mod.c', 'h_mod_zero', ''), H('p_mod.c', 'h_mod_long', ''),
])
prop('P21', 'copy, move, ren', [
    H('p_copy.c', 'h_copy_one', ''), H('p_copy.c', 'h_copy_many', ''), H('p_copy.c', 'h_copy_fault', ''), H('p_copy.c', 'h_copy_tree', ''), H('p_copy.c', 'h_ren', ''),
])
prop('P22', 'del, rd, md', [
    H('p_del.c', 'h_del', ''), H('p_del.c', 'h_rd', ''), H('p_del.c', 'h_md', ''),
])
prop('P23', 'type, find, wc, more, xargs', [
    H('p_filt.c', 'h_type', '', dict(NT=2), dict(NT=3)), H('p_filt.c', 'h_typein', ''), H('p_filt.c', 'h_find', '', dict(NF=4), dict(NF=5)), H('p_filt.c', 'h_finde', '', dict(NF=4), dict(NF=5)), H('p_filt.c', 'h_findn', ''),
    H('p_filt.c', 'h_wc', '', dict(NW=3), dict(NW=4)), H('p_filt.c', 'h_xargs', '', dict(NX=3), dict(NX=4)), H('p_filt.c', 'h_more', '', dict(NM=3), dict(NM=4)), H('p_filt.c', 'h_more2', ''), H('p_filt.c', 'h_long', ''),
])
prop('P24', 'external programs', [
    H('p_exec.c', 'h_exec_args', '', dict(NP=2), dict(NP=3)), H('p_exec.c', 'h_exec_path', ''), H('p_exec.c', 'h_exec_env', ''), H('p_exec.c', 'h_exec_io', ''), H('p_exec.c', 'h_exec_status', ''),
])
prop('P25', 'exit and scripts', [
    H('p_exit.c', 'h_exit', '', dict(NC=2), dict(NC=4)), H('p_exit.c', 'h_exit_b', '', dict(NC=2), dict(NC=4)), H('p_exit.c', 'h_iso', ''), H('p_exit.c', 'h_sees', ''),
])
prop('P26', 'robustness', [
    H('p_rob.c', 'h_rob_line', '', dict(NB=3), dict(NB=4)), H('p_rob.c', 'h_rob_cmd', ''), H('p_rob.c', 'h_rob_script', ''), H('p_rob.c', 'h_rob_text', '', dict(NT=3), dict(NT=4)),
])
prop('P27', 'prompt', [
    H('p_prompt.c', 'h_prompt_fmt', '', dict(NT=2), dict(NT=3)), H('p_prompt.c', 'h_prompt_pecho', '', dict(NT=2), dict(NT=3)), H('p_prompt.c', 'h_prompt_set', '', dict(NT=2), dict(NT=3)), H('p_prompt.c', 'h_prompt_lines', ''), H('p_prompt.c', 'h_prompt_call', ''),
])
prop('P28', 'dump', [
    H('p_dump.c', 'h_dump_val', '', unit='dump'), H('p_dump.c', 'h_dump_rows', '', unit='dump'), H('p_dump.c', 'h_dump_pieces', '', unit='dump'), H('p_dump.c', 'h_dump_files', '', unit='dump'), H('p_dump.c', 'h_dump_float', '', unit='dump'),
])
prop('P29', 'pbatize', [
    H('p_pbz.c', 'h_pbz_cmd', '', dict(NSW=2), dict(NSW=3), unit='pbatize'), H('p_pbz.c', 'h_pbz_text', '', dict(NB=3), dict(NB=4), unit='pbatize'), H('p_pbz.c', 'h_pbz_file', '', unit='pbatize', steps=30000000),
])
prop('P30', 'catalogues', [
    H('p_mo.c', 'h_mo_find', ''), H('p_mo.c', 'h_mo_bad', ''), H('p_mo.c', 'h_mo_cut', ''), H('p_mo.c', 'h_mo_which', ''),
])
prop('P31', 'cu8', [
    H('p_cu8.c', 'h_cu8_write', '', dict(NB=4), dict(NB=5), unit='cu8'), H('p_cu8.c', 'h_cu8_long', '', dict(NB=4), dict(NB=5), unit='cu8'),
    H('p_cu8.c', 'h_cu8_read', '', dict(NC=3, SZ=5), dict(NC=4, SZ=6), unit='cu8'), H('p_cu8.c', 'h_cu8_print', '', unit='cu8'),
    H('p_cu8.c', 'h_cu8_conv', '', dict(NV=2), dict(NV=3), unit='cu8'), H('p_cu8.c', 'h_cu8_name', '', dict(NV=2), dict(NV=3), unit='cu8'), H('p_cu8.c', 'h_cu8_dir', '', unit='cu8'),
])
prop('P32', 'console', [
    H('p_con.c', 'h_con_edit', '', dict(NK=3), dict(NK=4), unit='cu8'), H('p_con.c', 'h_con_history', '', dict(NK=4), dict(NK=5), unit='cu8'),
    H('p_con.c', 'h_con_many', '', unit='cu8'), H('p_con.c', 'h_con_tab', '', dict(NT=4), dict(NT=5), unit='cu8'), H('p_con.c', 'h_con_short', '', unit='cu8'),
])

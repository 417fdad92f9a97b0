cv='cligen_cv.c'; ob='cligen_object.c'; rd='cligen_read.c'; pt='cligen_parsetree.c'; ex='cligen_expand.c'; ma='cligen_match.c'; ha='cligen_handle.c'; hi='cligen_history.c'; gl='cligen_getline.c'; cb='cligen_callback.c'; ve='cligen_cvec.c'; bu='cligen_buf.c'; io='cligen_io.c'; ph='cligen_pt_head.c'; re='cligen_result.c'
M=[
('a01','C01',[(ex,"            if (cvv_filter && co_filter_set(con, cvv_filter) == NULL)\n                goto done;\n            /* con","            if (cvv_filter)\n                co_filter_set(con, cvv_filter);\n            /* con")]),
('a02','C01',[(rd,"    /* For cligen_output","    /* For cligen_output")] if 0 else [(rd,"        ret = cligen_eval_pipe_post(h, spipe, childpid);\n        childpid = 0;\n        if (ret < 0)\n            goto done;","        ret = cligen_eval_pipe_post(h, spipe, childpid);\n        childpid = 0;\n        (void)ret;")]),
('a03','C01',[(cv,"                if ((retval = match_regexp(h, str, regexp, cv_flag(cv1, V_INVERT))) < 0)\n                    goto done;\n                if (retval == 0){","                if ((retval = match_regexp(h, str, regexp, cv_flag(cv1, V_INVERT))) <= 0){\n                    retval = 0;")]),
('a04','C01',[(rd,"        else if (WIFEXITED(status)){","        else if (0 && WIFEXITED(status)){")] if 0 else [(rd,"        if (WEXITSTATUS(status) != 0)\n            retval = -1;","        if (WEXITSTATUS(status) != 0 && retval)\n            retval = -1;")]),
('a05','C01',[(ve,"        if (cv_cp(tail, cv) < 0) {\n            cv_reset(tail);\n            cvec_del(cvv, tail);\n            tail = NULL;\n        }","        cv_cp(tail, cv);")]),
('a06','C01',[(rd,"    if (cligen_exclude_keys_get(h) &&\n        cvec_exclude_keys(cvv1) < 0)\n        goto done;","    if (cligen_exclude_keys_get(h))\n        cvec_exclude_keys(cvv1);")]),
('b01','C03',[(ha,"    if (prompt && (str = strdup(prompt)) == NULL)\n        return -1;","    if (prompt){\n        str = malloc(strlen(prompt) + 1);\n        strcpy(str, prompt);\n    }")]),
('b02','C03',[(ex,"        if ((cp = ccmd = strdup(co->co_choice)) == NULL)\n            goto done;","        cp = ccmd = strdup(co->co_choice);")]),
('b03','C03',[(bu,"        if ((buffer = realloc(cb->cb_buffer, buflen)) == NULL)\n            goto done;\n        cb->cb_buffer = buffer;","        cb->cb_buffer = realloc(cb->cb_buffer, buflen);")]),
('b04','C03',[(cv,"    if ((s1 = malloc(n+1)) == NULL)\n        return NULL; /* error in errno */\n    strncpy","    if ((s1 = malloc(n+1)) == NULL && n)\n        return NULL; /* error in errno */\n    strncpy")]),
('c01','C04',[(ma,"            if (tmpreason){\n                free(tmpreason);\n                tmpreason = NULL;\n            }\n        }","            tmpreason = NULL;\n        }")]),
('c02','C04',[(ex,"    if (cp)\n        free(cp);\n    return retval;","    if (cp && retval == 0)\n        free(cp);\n    return retval;")]),
('c03','C04',[(cv,"    if (s0)\n        free(s0);\n    if (ss)\n        free(ss);\n    return retval;","    if (s0)\n        free(s0);\n    if (ss && retval == 1)\n        free(ss);\n    return retval;")]),
('c04','C04',[(rd,"    if (wh)\n        free(wh);\n    if (cvv1)\n        cvec_free(cvv1);","    if (wh)\n        free(wh);\n    if (cvv1 && retval == 0)\n        cvec_free(cvv1);")]),
('c05','C04',[(re,"    if (mr->mr_reason)\n        free(mr->mr_reason);\n    free(mr);","    free(mr);")]),
('d01','C05',[(cb,"   while ((cc = *ccp) != NULL){\n        *ccp = co_callback_next(cc);\n        co_callback_one_free(cc);\n   }","   for (cc = *ccp; cc != NULL; cc = co_callback_next(cc))\n        co_callback_one_free(cc);\n   *ccp = NULL;")]),
('d02','C05',[(cv,"    memset(cv, 0, sizeof(*cv));\n    cv->var_type = type;\n    return 0;","    if (type != CGV_URL)\n        memset(cv, 0, sizeof(*cv));\n    cv->var_type = type;\n    return 0;")]),
('d03','C05',[(pt,"    co = pt->pt_vec[i];\n    pt->pt_vec[i] = NULL;\n    co_free(co, recurse);\n    if (","    co = pt->pt_vec[i];\n    co_free(co, recurse);\n    if (recurse == 0)\n        return 0;\n    if (")]),
('d04','C05',[(re,"    if (mr->mr_reason)\n        free(mr->mr_reason);\n    mr->mr_reason = reason;","    if (mr->mr_reason)\n        free(mr->mr_reason);\n    if (reason)\n        mr->mr_reason = reason;")]),
('d05','C05',[(ha,"    if (ch->ch_fn_str)\n        free(ch->ch_fn_str);\n    ch->ch_fn_str = str;","    if (ch->ch_fn_str)\n        free(ch->ch_fn_str);\n    if (str)\n        ch->ch_fn_str = str;")]),
('d06','C05',[(rd,"    if (matchobj)\n        co_free(matchobj, 0);\n    if (cvv)\n        cvec_free(cvv);\n    return retval;","    if (cvv)\n        cvec_free(cvv);\n    if (matchobj)\n        co_free(matchobj, 0);\n    if (cvv && retval < 0)\n        cvec_free(cvv);\n    return retval;")]),
('e01','C06',[(cb,"        if (cc->cc_cvec && ((cc1->cc_cvec = cvec_dup(cc->cc_cvec)) == NULL))\n            goto done;","        cc1->cc_cvec = cc->cc_cvec;")]),
('e02','C06',[(ob,"        if (co->co_choice)\n            free(co->co_choice);","")]),
('e03','C06',[(ex,"    if (co0->co_prefix)\n        if ((con->co_prefix = strdup(co0->co_prefix)) == NULL){\n            fprintf(stderr, \"%s: strdup: %s\\n\", __FUNCTION__, strerror(errno));\n            goto done;\n        }","    con->co_prefix = co0->co_prefix;")]),
('e04','C06',[(ha,"    if (ch->ch_nomatch)\n        free(ch->ch_nomatch);\n","")]),
('e05','C06',[(cb,"        cc1->cc_flags = cc->cc_flags;\n","")]),
('f01','C07',[(cv,"        return (cv1->var_bool - cv2->var_bool);","        return (cv1->var_int32 - cv2->var_int32);")]),
('f02','C10',[(cv,"        if ((n = strcmp(cv1->var_urluser, cv2->var_urluser)))\n            return n;","        n = strcmp(cv1->var_urluser, cv2->var_urluser);")]),
('f03','C10',[(cv,"        return memcmp(cv1->var_uuid, cv2->var_uuid, 16);","        return memcmp(cv1->var_uuid, cv2->var_uuid, 8);")]),
('f04','C10',[(cv,"        return (cv1->var_time.tv_usec > cv2->var_time.tv_usec) -\n            (cv1->var_time.tv_usec < cv2->var_time.tv_usec);","        return cv1->var_time.tv_usec < cv2->var_time.tv_usec;")]),
('f05','C10',[(cv,"        return (cv1->var_uint64 > cv2->var_uint64) - (cv1->var_uint64 < cv2->var_uint64);","        return (int)(cv1->var_uint64 - cv2->var_uint64);")]),
('g01','C08',[(cv,"    return parse_int64_base(str, 0, INT64_MIN, INT64_MAX, val, reason);","    return parse_int64_base(str, 0, INT64_MIN+1, INT64_MAX, val, reason);")]),
('g02','C08',[(cv,"    if (n<=0 || n>18){","    if (n<=0 || n>19){")]),
('g03','C08',[(cv,"        if (len2 > n){","        if (len2 > n+1){")]),
('g04','C08',[(cv,"    else if (i < imin || i > imax){","    else if (i < imin || (imax > 0 && (int32_t)i > imax)){")]),
('h01','C09',[(cv,"((i) <= cv_##type##_get(cvupp)))","((i) < cv_##type##_get(cvupp) || (i) == cv_##type##_get(cvlow)))")]),
('h02','C09',[(cv,"        i64 = cv_int64_get(cv);\n        ok = 0;         /* At least one should pass */\n        for (j=0; j<cs->cgs_rangelen; j++){\n            cv1 = cvec_i(cs->cgs_rangecvv_low, j);\n            cv2 = cvec_i(cs->cgs_rangecvv_upp, j);\n            if ((ok = range_check(i64, cv1, cv2, int64)) != 0)","        i64 = cv_int64_get(cv);\n        ok = 0;         /* At least one should pass */\n        for (j=0; j<cs->cgs_rangelen; j++){\n            cv1 = cvec_i(cs->cgs_rangecvv_low, j);\n            cv2 = cvec_i(cs->cgs_rangecvv_upp, j);\n            if ((ok = range_check(i64, cv1, cv2, int32)) != 0)")]),
('h03','C09',[(cv,"            if ((ok = range_check(u64, cv1, cv2, uint64)) != 0)\n                break;","            if ((ok = range_check(u64, cv1, cv2, uint64)) == 0)\n                break;")]),
('h04','C09',[(cv,"        u = cv_uint32_get(cv);","        u = (uint16_t)cv_uint32_get(cv);")]),
('i01','C11',[(cv,"    if (retval == 0 && reason)\n        if ((*reason = cligen_reason(\"Invalid IPv4 address\")) == NULL)\n            retval = -1;\n","")]),
('i02','C11',[(cv,"            if (reason){\n                if (outofrange(cv, cs, reason) < 0)\n                    retval = -1;\n            }\n","            ;\n")]),
('i03','C11',[(ma,"    if (mr_pt_len_get(mr) != 0)\n        mr_reason_set(mr, NULL);\n","")]),
('j01','C14',[(pt,"    if (i < 0 || i >= pt_len_get(pt)){\n       errno = EINVAL;\n       goto done;\n    }\n    if (pt->pt_vec == NULL)","    if (i < 0 || i > pt_len_get(pt)){\n       errno = EINVAL;\n       goto done;\n    }\n    if (pt->pt_vec == NULL)")]),
('j02','C14',[(ve,"        if (i < cvv->vr_len-1)\n            cv = cv0 + 1;","        if (i < cvv->vr_len)\n            cv = cv0 + 1;")]),
('j03','C14',[(pt,"    if (i<0 || i > pt_len_get(pt)){","    if (i > pt_len_get(pt)){")]),
('j04','C14',[(ve,"    if (i < 0 || i >= cvec_len(cvv)){\n        errno = EINVAL;\n        return -1;","    if (i < 0 || i > cvec_len(cvv)){\n        errno = EINVAL;\n        return -1;")]),
('k01','C15',[(cv,"    cv->u.varu_string = s1;\n    return s1;","    cv->u.varu_string = s1;\n    cv->var_const = 0;\n    return s1;")]),
('k02','C15',[(ph,"    if (ph->ph_output_pipe)\n        free(ph->ph_output_pipe);\n    ph->ph_output_pipe = str;","    if (str == NULL)\n        return 0;\n    if (ph->ph_output_pipe)\n        free(ph->ph_output_pipe);\n    ph->ph_output_pipe = str;")]),
('l01','C16',[(cv,"""    if (cv == NULL){
        errno = EINVAL;
        return NULL;
    }
    if (s0 == NULL){
        errno = EINVAL;
        return NULL;
    }
    /* Allocate s1. and then copy */""","""    if (s0 == NULL){
        errno = EINVAL;
        return NULL;
    }
    /* Allocate s1. and then copy */""")]),
('m01','C17',[(ha,"    if (treename && (str = strdup(treename)) == NULL)\n        return -1;\n    if (ch->ch_treename_keyword)\n        free(ch->ch_treename_keyword);","    if (ch->ch_treename_keyword)\n        free(ch->ch_treename_keyword);\n    ch->ch_treename_keyword = NULL;\n    if (treename && (str = strdup(treename)) == NULL)\n        return -1;")]),
('n01','C18',[(gl,"        cligen_buf(h)[0] = 0; /* clean exit from gl? */\n        gl_cleanup();","        cligen_buf(h)[0] = 0; /* clean exit from gl? */\n        gl_init_done = 0;")]),
('o01','C21',[(io,'        fprintf(f, "%s", linebuf);','        fprintf(f, linebuf);')]),
('o02','C21',[(cv,'"%s: Invalid MAC address (should have 6 octets, not %d)", str, n_colons + 1','"%s: Invalid MAC address (should have 6 octets, not %ld)", str, n_colons + 1')]),
('p01','C22',[(rd,"                cligen_fn_str_set(h, NULL);\n                goto done;\n            }\n            if (wrapfn","                cligen_fn_str_set(h, NULL);\n                retval = -1;\n                break;\n            }\n            if (wrapfn")]),
('p02','C22',[(rd,"    if (*result == CG_MATCH)\n        *cb_retval","    if (*result == CG_MATCH || matchobj)\n        *cb_retval")]),
('q01','C26',[(ob,"        else if (co->co_regex)\n            pref = 7;","        else if (co->co_regex && co->co_rangelen)\n            pref = 7;")]),
('q02','C26',[(ob,"    if (co->co_preference > 0)","    if (co->co_preference > 1)")]),
('q03','C26',[(ob,"    case CGV_REST:\n        pref = 1;","    case CGV_REST:\n        pref = 5;")]),
]

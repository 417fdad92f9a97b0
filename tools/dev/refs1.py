M=[
# extract helper: duplicate strings of a variable node
('r01','C01 C03 C04 C05 C06',[('cligen_object.c','''    if (co->co_helpstring)
        if ((con->co_helpstring = strdup(co->co_helpstring)) == NULL)
            goto done;
''','''    if (dup_str(co->co_helpstring, &con->co_helpstring) < 0)
        goto done;
'''),('cligen_object.c','''    if (co->co_helpstring)
        if ((con->co_helpstring = strdup(co->co_helpstring)) == NULL)
            goto done;
''','''    if (dup_str(co->co_helpstring, &con->co_helpstring) < 0)
        goto done;
'''),('cligen_object.c','''/*! Recursively copy a cligen object.
''','''/*! Copy string if set */
static int
dup_str(char *from, char **to)
{
    if (from == NULL)
        return 0;
    *to = strdup(from);
    return *to ? 0 : -1;
}

/*! Recursively copy a cligen object.
''')]),
# cvec_reset: for loop by index
('r02','C01 C03 C04 C05 C06 C14 C16',[('cligen_cvec.c','''    while ((cv = cvec_each(cvv, cv)) != NULL)
        cv_reset(cv);
    if (cvv->vr_vec)
        free(cvv->vr_vec);
    if (cvv->vr_name)
        free(cvv->vr_name);
''','''    int     i;

    for (i = 0; i < cvv->vr_len; i++)
        cv_reset(&cvv->vr_vec[i]);
    (void)cv;
    free(cvv->vr_name);
    free(cvv->vr_vec);
''')]),
# cv_cmp int: if chain
('r03','C10 C07',[('cligen_cv.c','''        return (cv1->var_int64 > cv2->var_int64) - (cv1->var_int64 < cv2->var_int64);
''','''        if (cv1->var_int64 < cv2->var_int64)
            return -1;
        if (cv1->var_int64 > cv2->var_int64)
            return 1;
        return 0;
'''),('cligen_cv.c','''        return (cv1->var_uint8 - cv2->var_uint8);
''','''        return cv1->var_uint8 == cv2->var_uint8 ? 0 : cv1->var_uint8 < cv2->var_uint8 ? -1 : 1;
'''),('cligen_cv.c','''        if ((n =  memcmp(&cv1->var_ipv4addr, &cv2->var_ipv4addr,
                         sizeof(cv1->var_ipv4addr))))
            return n;
        return cv1->var_ipv4masklen - cv2->var_ipv4masklen;
''','''        n = memcmp(&cv1->var_ipv4addr, &cv2->var_ipv4addr, sizeof(struct in_addr));
        if (n == 0)
            n = cv1->var_ipv4masklen - cv2->var_ipv4masklen;
        return n;
''')]),
# parse_int64_base: restructured
('r04','C01 C03 C08 C11',[('cligen_cv.c','''    else if (i < imin || i > imax){
        if (reason != NULL)
            if ((*reason = cligen_reason("Number %s out of range: %" PRId64 " - %" PRId64, str, imin, imax)) == NULL){
                retval = -1;
                goto done;
            }
        retval = 0;
        goto done;
    }
    *val = i;
    retval = 1; /* OK */
''','''    if (imin <= i && i <= imax){
        *val = i;
        retval = 1;
        goto done;
    }
    if (reason){
        *reason = cligen_reason("Number %s out of range: %" PRId64 " - %" PRId64, str, imin, imax);
        if (*reason == NULL)
            goto done;
    }
    retval = 0;
''')]),
# hist_add: increments extracted
('r05','C01 C03 C04 C05 C14',[('cligen_history.c','''            ch->ch_hist_last = (ch->ch_hist_last + 1) % ch->ch_hist_size;
''','''            if (++ch->ch_hist_last == ch->ch_hist_size)
                ch->ch_hist_last = 0;
'''),('cligen_history.c','''    char *p = 0;
    int   next = (ch->ch_hist_cur - 1 + ch->ch_hist_size) % ch->ch_hist_size;
''','''    char *p = NULL;
    int   next = ch->ch_hist_cur == 0 ? ch->ch_hist_size - 1 : ch->ch_hist_cur - 1;
''')]),
# gl_char_init split into helper
('r06','C18',[('cligen_getline.c','''    new_termios = old_termios;
    new_termios.c_iflag &= ~(BRKINT|ISTRIP|IXON|IXOFF);
    new_termios.c_iflag |= (IGNBRK|IGNPAR);
    new_termios.c_lflag &= ~(ICANON|ISIG|IEXTEN|ECHO);
    new_termios.c_cc[VMIN] = 1;
    new_termios.c_cc[VTIME] = 0;
    tcsetattr(0, TCSADRAIN, &new_termios);
''','''    gl_raw(&old_termios, &new_termios);
'''),('cligen_getline.c','''void
gl_char_init(void) ''','''static void
gl_raw(struct termios *o, struct termios *n)
{
    memcpy(n, o, sizeof(*n));
    n->c_lflag &= ~(ICANON|ISIG|IEXTEN|ECHO);
    n->c_iflag &= ~(BRKINT|ISTRIP|IXON|IXOFF);
    n->c_iflag |= (IGNBRK|IGNPAR);
    n->c_cc[VTIME] = 0;
    n->c_cc[VMIN] = 1;
    tcsetattr(0, TCSADRAIN, n);
}

void
gl_char_init(void) ''')]),
# cvec_del_i reorganised
('r07','C01 C05 C14 C16',[('cligen_cvec.c','''    if (i < 0 || i >= cvec_len(cvv)){
        errno = EINVAL;
        return -1;
    }
    if (i != cvec_len(cvv)-1) /* If not last entry, move the remaining cv's */
        memmove(&cvv->vr_vec[i], &cvv->vr_vec[i+1],
                (cvv->vr_len-i-1) * sizeof(cvv->vr_vec[0]));
''','''    int len = cvec_len(cvv);
    int n;

    if (i >= 0 && i < len){
        n = len - i - 1;
        if (n > 0)
            memmove(cvv->vr_vec + i, cvv->vr_vec + i + 1, n * sizeof(cg_var));
    }
    else {
        errno = EINVAL;
        return -1;
    }
''')]),
# cv_reset: helper for url
('r08','C04 C05 C06 C07',[('cligen_cv.c','''        if (cv->var_urlproto)
            free(cv->var_urlproto);
        if (cv->var_urladdr)
            free(cv->var_urladdr);
        if (cv->var_urlpath)
            free(cv->var_urlpath);
        if (cv->var_urluser)
            free(cv->var_urluser);
        if (cv->var_urlpasswd)
            free(cv->var_urlpasswd);
        break;
''','''        url_free(cv);
        break;
'''),('cligen_cv.c','''/*! Free pointers and resets a single CLIgen variable cv
''','''static void
url_free(cg_var *cv)
{
    free(cv->var_urlpasswd);
    free(cv->var_urluser);
    free(cv->var_urlpath);
    free(cv->var_urladdr);
    free(cv->var_urlproto);
}

/*! Free pointers and resets a single CLIgen variable cv
''')] ),
# cbuf_new_alloc calloc
('r09','C01 C03 C04 C05 C21',[('cligen_buf.c','''    if ((cb = (cbuf*)malloc(sizeof(*cb))) == NULL)
        return NULL;
    memset(cb, 0, sizeof(*cb));
    cb->cb_buflen = sz?sz:1; /* room for null */
    if ((cb->cb_buffer = malloc(cb->cb_buflen)) == NULL){
        free(cb);
        return NULL;
    }
    memset(cb->cb_buffer, 0, cb->cb_buflen);
    cb->cb_strlen = 0;
    return cb;
''','''    if (sz == 0)
        sz = 1;
    cb = calloc(1, sizeof(*cb));
    if (cb != NULL){
        cb->cb_buflen = sz;
        cb->cb_buffer = calloc(1, sz);
        if (cb->cb_buffer == NULL){
            free(cb);
            cb = NULL;
        }
    }
    return cb;
'''),('cligen_buf.c','''    if ((len = vsnprintf(NULL, 0, format, ap)) < 0) /* dryrun, just get len */
        goto done;
    /* Ensure''','''    len = vsnprintf(NULL, 0, format, ap);
    if (len < 0)
        goto done;
    /* Ensure''')]),

# validate: helper doing the loop for one type
('r10','C01 C03 C09 C11 C14',[('cligen_cv.c',"""        i = cv_int32_get(cv);
        ok = 0;         /* At least one should pass */
        for (j=0; j<cs->cgs_rangelen; j++){
            cv1 = cvec_i(cs->cgs_rangecvv_low, j);
            cv2 = cvec_i(cs->cgs_rangecvv_upp, j);
            if ((ok = range_check(i, cv1, cv2, int32)) != 0)
                break;
        }
        if (!ok){
            retval = 0; /* No match */
            if (outofrange(cv, cs, reason) < 0)
                retval = -1;
        }
        break;
""","""        if (!within_int32(cs, cv_int32_get(cv)))
            retval = outofrange(cv, cs, reason) < 0 ? -1 : 0;
        break;
"""),('cligen_cv.c',"""        u = cv_uint8_get(cv);
        ok = 0;         /* At least one should pass */
        for (j=0; j<cs->cgs_rangelen; j++){
            cv1 = cvec_i(cs->cgs_rangecvv_low, j);
            cv2 = cvec_i(cs->cgs_rangecvv_upp, j);
            if ((ok = range_check(u, cv1, cv2, uint8)) != 0)
                break;
        }
""","""        u = cv_uint8_get(cv);
        j = 0;
        do {
            cv1 = cvec_i(cs->cgs_rangecvv_low, j);
            cv2 = cvec_i(cs->cgs_rangecvv_upp, j);
            ok = range_check(u, cv1, cv2, uint8);
        } while (!ok && ++j < cs->cgs_rangelen);
"""),('cligen_cv.c',"""/*! Validate cligen variable""","""static int
within_int32(cg_varspec *cs, int32_t v)
{
    int     k;
    cg_var *lo;
    cg_var *hi;

    for (k=0; k<cs->cgs_rangelen; k++){
        lo = cvec_i(cs->cgs_rangecvv_low, k);
        hi = cvec_i(cs->cgs_rangecvv_upp, k);
        if (range_check(v, lo, hi, int32))
            return 1;
    }
    return 0;
}

/*! Validate cligen variable""")]),
# table driven preference for two types
('r11','C26',[('cligen_object.c',"""    int pref = 0;

    switch (co->co_vtype){
""","""    static const struct { enum cv_type t; int plain; int ranged; } tab[] = {
        {CGV_INT8, 52, 60}, {CGV_INT16, 50, 58}, {CGV_DEC64, 62, 62},
    };
    int pref = 0;
    size_t k;

    for (k = 0; k < sizeof(tab)/sizeof(tab[0]); k++)
        if (tab[k].t == co->co_vtype)
            return co->co_rangelen ? tab[k].ranged : tab[k].plain;
    switch (co->co_vtype){
""")]),
# eval: body of the second loop as helper
('r12','C01 C03 C04 C05 C22',[('cligen_read.c',"""            if ((*fn)(cligen_userhandle(h)?cligen_userhandle(h):h,
                                cvv1,
                                argv) < 0){
                if (argv != NULL)
                    cvec_free(argv);
                cligen_fn_str_set(h, NULL);
                goto done;
            }
            if (wrapfn && wh != NULL)
                (*wrapfn)(wraparg, &wh, cc->cc_fn_str, __FUNCTION__);
            if (argv != NULL)
                cvec_free(argv);
            cligen_fn_str_set(h, NULL);
""","""            ret = run_callback(h, fn, cvv1, argv);
            if (ret >= 0 && wrapfn && wh != NULL)
                (*wrapfn)(wraparg, &wh, cc->cc_fn_str, __FUNCTION__);
            if (argv != NULL)
                cvec_free(argv);
            cligen_fn_str_set(h, NULL);
            if (ret < 0)
                goto done;
"""),('cligen_read.c',"""/*! Evaluate""","""static int
run_callback(cligen_handle h, cgv_fnstype_t *fn, cvec *cvv, cvec *argv)
{
    void *arg = cligen_userhandle(h);

    if (arg == NULL)
        arg = h;
    return fn(arg, cvv, argv);
}

/*! Evaluate""")]),
# co_free without null checks, split
('r13','C04 C05 C06',[('cligen_object.c',"""    if (co->co_helpstring)
        free(co->co_helpstring);
    if (co->co_command)
        free(co->co_command);
    if (co->co_prefix)
        free(co->co_prefix);
    if (co->co_cvec)
        cvec_free(co->co_cvec);
    if (co->co_filter)
        cvec_free(co->co_filter);
    if (co->co_callbacks)
        co_callbacks_free(&co->co_callbacks);
    if (co->co_type == CO_VARIABLE){
        if (co->co_expand_fn_str)
            free(co->co_expand_fn_str);
        if (co->co_translate_fn_str)
            free(co->co_translate_fn_str);
        if (co->co_show)
            free(co->co_show);
""","""    if (co->co_callbacks)
        co_callbacks_free(&co->co_callbacks);
    cvec_free(co->co_filter);
    cvec_free(co->co_cvec);
    free(co->co_prefix);
    free(co->co_command);
    free(co->co_helpstring);
    if (co->co_type == CO_VARIABLE){
        free(co->co_show);
        free(co->co_translate_fn_str);
        free(co->co_expand_fn_str);
""")]),
# pt_trunc
('r14','C01 C03 C04 C05 C14 C16',[('cligen_parsetree.c',"""        for (i=len; i<pt_len_get(pt); i++){
            if ((co = pt_vec_i_get(pt, i)) != NULL)
                co_free(co, 0);
        }
        pt->pt_len = len;
        if ((vec = realloc(pt->pt_vec, (len)*sizeof(cg_obj *))) == NULL)
            return -1;
        pt->pt_vec = vec;
""","""        i = pt->pt_len;
        while (--i >= len){
            co = pt->pt_vec[i];
            if (co)
                co_free(co, 0);
        }
        pt->pt_len = len;
        vec = realloc(pt->pt_vec, len*sizeof(*vec));
        if (vec)
            pt->pt_vec = vec;
        else
            return -1;
""")]),
# match_vec: continue instead of else
('r15','C01 C03 C04 C05 C11',[('cligen_match.c',"""            if (tmpreason){
                free(tmpreason);
                tmpreason = NULL;
            }
        }
        /* An alternative is to sort away these after the call in match_pattern_sets_local */
        else if (co_flags_get(co, CO_FLAGS_MATCH)){
""","""            free(tmpreason);
            tmpreason = NULL;
            continue;
        }
        /* An alternative is to sort away these after the call in match_pattern_sets_local */
        if (co_flags_get(co, CO_FLAGS_MATCH)){
""")]),
]

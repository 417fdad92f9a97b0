PROP='C01'
EDITS=[('cligen_parsetree.c',"""                if (co_copy(co, co_parent, flags, &ptn->pt_vec[j++]) < 0)
                    goto done;
        }
        else
            ptn->pt_vec[j++] = NULL;
    }
    retval = 0;
 done:""","""                if ((retval = co_copy(co, co_parent, flags, &ptn->pt_vec[j++])) < 0)
                    continue;
        }
        else
            ptn->pt_vec[j++] = NULL;
        retval = 0;
    }
    if (i == 0)
        retval = 0;
 done:""")]
DEMO='''#include "demo.h"
int main(){ long n; parse_tree *pt=pt_new(), *d; int i; cligen_handle h;
 for(i=0;i<3;i++){ char s[]="a"; cg_obj *co; s[0]+=i; co=co_new(s,NULL); CHECK(pt_vec_append(pt,co)==0);}
 for(n=1;n<20;n++){ oom_set(n); d=pt_dup(pt,NULL,0); oom_set(0);
   if (d){ CHECK(pt_len_get(d)==3); for(i=0;i<3;i++) CHECK(pt_vec_i_get(d,i)!=NULL); } }
 return 0;}
'''
NEEDS='memory running out while a command that is not the last one of its level is copied'
BREAKS='copying a tree reports success although a command is missing'

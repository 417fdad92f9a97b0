import sys, time
from front import Program
from interp import *
import par
ANSWER={'co_eq','cv_cmp','pt_len_get','co_cmp','cvec_len','cligen_tonum','todig','str_cmp','strncmp3','order_cmp'}
# writing to the screen is best effort throughout the library and is no step a result depends on
SCREEN={'gl_putc','gl_puts','cligen_output','cligen_output_basic','cligen_output_scroll','pt_print','pt_print1','co_print','co_print1','pt_dump','pt_dump1','co_dump','co_dump1','cvec_print','cv_print','callbacks_dump'}
# functions whose negative result is an answer about their argument
ANSWER|={'str2uuid','str2time','gl_getc','<observer callback>','<hook gl_in_hook>','<hook gl_out_hook>','<hook gl_susp_hook>'}
OPAQUE={'cligen_parseparse','cligen_parselex'}
POL={'opaque':OPAQUE,'coarse':2500,'errclass':lambda n:'nonzero' if n=='cligen_parseparse' else 'neg','failclass':lambda n:None if n in ANSWER or n in SCREEN else n,'sysfail':{'stream','socketpair','fork','dup2','sigaction','vsnprintf'}}
def analyse(prog, pol=POL, verbose=False, only=None, hooks=()):
    def make(blobs):
        I = Interp(prog, pol)
        I.summ = par.Lazy(I, blobs)
        I.dereferenced = par.LazyDeref(I)
        I.hooks = list(hooks)
        return I
    return par.analyse(prog, make, verbose=verbose, only=only)
if __name__=='__main__':
    p=Program()
    t=time.time()
    events,stats,extras,I=analyse(p,verbose=True)
    print('time',time.time()-t,stats)
    from collections import Counter
    ev=[e for d in events.values() for e in d.values()]
    print(Counter(e.kind for e in ev))
    for e in sorted(ev,key=lambda e:(e.kind,e.fn,e.loc)): print(e)
    import pickle; pickle.dump(ev,open('/tmp/w/ev.pkl','wb'))

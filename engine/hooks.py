class Hook:
    def access(self, I, fr, ins, st, p, write): pass
    def store(self, I, fr, ins, st, base, off, v): pass
    def call(self, I, fr, ins, st, name, args): return None
    def after(self, I, fr, ins, st, fn, args, rv, o): pass
    def sys(self, I, fr, ins, st, name, args, ok, v=None): pass
    def alloc(self, I, fr, ins, st, name, args, b): pass
    def released(self, I, fr, ins, st, name, a): pass
    def exit(self, I, fr, st, rv, ins): pass

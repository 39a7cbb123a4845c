from .interp import Undecided
def summarise(I,s,it,fr):
    raise Undecided('symbolic loop line %s'%s.lineno)
def summarise_while(I,s,c,fr):
    raise Undecided('symbolic while line %s'%s.lineno)

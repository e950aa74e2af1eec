"""C18: classification of sequences (monotone, steps, initial direction)."""
from speclib import *

suite = Suite('C18')
suite.num = ['num_piecewise']
suite.assumptions = ['precondition of is_initially_increasing: at least two values, not all equal']
x = fn_of('x')
nxt = lambda k: x(add(k, num(1)))
PAIRS = {'strictly_increasing': lambda k: lt(x(k), nxt(k)),
         'strictly_decreasing': lambda k: lt(nxt(k), x(k)),
         'non_increasing': lambda k: le(nxt(k), x(k)),
         'non_decreasing': lambda k: le(x(k), nxt(k))}


def every(N, P):
    k = fresh('k', 'I')
    return lnot(tm.exists(k, sub(N, num(1)), lnot(P(k))))


def mk(name):
    @suite.ob(name, PW + name)
    def f(V):
        N = V.int('N', 1)
        xs = V.arr('x', N)

        def go():
            r = V.call(PW + name, xs)
            V.holds('true exactly when every consecutive pair satisfies the relation', iff(truth(r), every(N, PAIRS[name])))
            unchanged(V, ('x', xs))
        V.run(go)

    @suite.ob(name + '[pairs imply all]', PW + name)
    def g(V):
        """lemma: the relation between neighbours extends to every pair of positions"""
        N = V.int('N', 1)
        xs = V.arr('x', N)

        def go():
            r = V.call(PW + name, xs)
            c = truth(r)
            i = V.int('i0', 0)
            rel = {'strictly_increasing': lt, 'non_decreasing': le,
                   'strictly_decreasing': lambda a, b: lt(b, a), 'non_increasing': lambda a, b: le(b, a)}[name]
            V.requires(c)
            V.induct('ordered', N, lambda k: rel(x(i), x(k)), lo=add(i, num(1)))
        V.run(go)


for nm in PAIRS:
    mk(nm)


@suite.ob('has_steps', PW + 'has_steps')
def steps(V):
    N = V.int('N', 1)
    xs = V.arr('x', N)

    def go():
        r = V.call(PW + 'has_steps', xs)
        k = fresh('k', 'I')
        V.holds('true exactly when neighbouring positions repeat', iff(truth(r), tm.exists(k, sub(N, num(1)), eq(x(k), nxt(k)))))
        unchanged(V, ('x', xs))
    V.run(go)


@suite.ob('is_initially_increasing', PW + 'is_initially_increasing')
def initially(V):
    N = V.int('N', 2)
    xs = V.arr('x', N)
    d = V.int('d', 0)
    # d is the first position with a change
    V.requires(lt(d, sub(N, num(1))), ne(x(d), nxt(d)))
    V.forall(d, lambda k: eq(x(k), nxt(k)))

    def go():
        r = V.call(PW + 'is_initially_increasing', xs)
        V.holds('direction of the first change', iff(truth(r), lt(x(d), nxt(d))))
        unchanged(V, ('x', xs))
    V.run(go)

"""Objects without native representation (stored as pickle) and mixtures of everything."""
import collections
import datetime
import decimal
import fractions
import pathlib
import uuid

from hypothesis import strategies as st

from .gen import cached
from . import gen, ngen, sgen
from . import userlib as U


@cached
def pickled(inner=None):
    inner = inner if inner is not None else gen.scalars(nan=False)
    return gen.one_of(
        st.dates(), st.datetimes(), st.times(), st.timedeltas(),
        st.decimals(allow_nan=False), st.fractions(), st.uuids(),
        st.builds(range, st.integers(-5, 5), st.integers(-5, 50), st.integers(1, 4)),
        st.builds(slice, st.integers(0, 5), st.none(), st.integers(1, 3)),
        st.frozensets(gen.one_of(st.integers(), gen.texts()), max_size=4),
        st.binary(max_size=10).map(bytearray),
        st.lists(inner, max_size=4).map(collections.deque),
        st.builds(U.Plain, inner, st.lists(inner, max_size=3)),
        st.builds(U.Slots, inner, st.dictionaries(st.text(max_size=3), inner, max_size=2)),
        st.builds(U.State, inner),
        st.builds(U.Data, st.integers(), gen.texts()),
        st.sampled_from([int, dict, U.Plain, len, U.func, datetime.date, U.Colour, Exception, pathlib.Path]),
        st.sampled_from(list(U.Colour)),
        st.builds(pathlib.PurePosixPath, st.text(alphabet='ab/', max_size=4)),
        st.just(Ellipsis), st.just(NotImplemented),
    )


@cached
def mixed(max_leaves=8):
    leaf = gen.one_of(gen.scalars(), gen.number_lists(), ngen.arrays(), ngen.object_arrays(), ngen.masked(), ngen.np_scalars(), ngen.dtypes(), sgen.sparse(), pickled(), gen.sets())
    return st.recursive(leaf, lambda c: gen.one_of(st.lists(c, max_size=5), st.lists(c, max_size=5).map(tuple), gen.dicts(c, max_size=5)), max_leaves=max_leaves)


@cached
def bundles():
    """containers of at least two mixed things"""
    m = mixed(4)
    return gen.one_of(st.lists(m, min_size=2, max_size=5), st.lists(m, min_size=2, max_size=5).map(tuple), gen.dicts(m, max_size=5).filter(lambda d: len(d) > 1),
                     st.lists(st.tuples(m, m), min_size=1, max_size=3))

"""Workspaces of any size, in a few shapes whose graphs spec/BigWorlds.tla states in closed form."""
import gen


def _pkg(i, member=False, feats=None, rf=()):
    name = f"p{i:06d}"
    p = dict(name=name, ver="1.0.0", kind="path" if member else "crates", member=member, req=[], lib=name, libkind="lib",
             deps=[], feats=feats or {}, rf=sorted(rf))
    if member:
        p.update(dir="/w/" + name, kidsrc="path+file:///w/" + name, source=None, declsrc=None, urlbase="")
    else:
        p.update(kidsrc=gen.CRATES_IO, source=gen.CRATES_IO, declsrc=gen.CRATES_IO, urlbase=gen.CRATES_IO.split("+", 1)[1])
    p["in"] = True
    return p


def _dep(pk, i, j, kind="normal", opt=False, feats=()):
    q = pk[j]
    pk[i]["deps"].append(dict(toml=q["name"], ren=False, q=j, kind=kind, opt=opt, deff=False, feats=list(feats), target=None, ast=None,
                              req="*" if q["member"] else "=1.0.0", src=q["declsrc"], path=q.get("dir"), linked=True))


def _all(n, members=1, feats=lambda i: {}, rf=lambda i: ()):
    return [_pkg(i, i < members, feats(i), rf(i)) for i in range(n)]


def chain(n):
    """each crate depends on the next"""
    pk = _all(n)
    for i in range(n - 1):
        _dep(pk, i, i + 1)
    return pk


def star(n):
    """one crate depends on all others"""
    pk = _all(n)
    for i in range(1, n):
        _dep(pk, 0, i)
    return pk


def ladder(n):
    """layers of two crates, each of which depends on both of the next layer: 2^(n/2) paths"""
    n -= n % 2
    pk = _all(n, members=2)
    for i in range(n - 2):
        for j in (i - i % 2 + 2, i - i % 2 + 3):
            _dep(pk, i, j)
    return pk


def dense(n):
    """every crate depends on every later one"""
    pk = _all(n)
    for i in range(n):
        for j in range(i + 1, n):
            _dep(pk, i, j)
    return pk


def ring(n):
    """members in a ring, closed by a development dependency"""
    pk = _all(n, members=n)
    for i in range(n - 1):
        _dep(pk, i, i + 1)
    _dep(pk, n - 1, 0, kind="dev")
    return pk


def flist(n):
    """two crates; n features, each of which enables the next"""
    fs = {f"f{k:06d}": [f"f{k + 1:06d}"] if k + 1 < n else [] for k in range(n)}
    pk = [_pkg(0, True), _pkg(1, False, fs, fs)]
    _dep(pk, 0, 1, feats=["f000000"])
    return pk


def fpass(n):
    """a feature of each crate enables the same of the next"""
    pk = _all(n, feats=lambda i: {} if i == 0 else {"x": [f"p{i + 1:06d}/x"] if i + 1 < n else []}, rf=lambda i: ["x"] if i else [])
    for i in range(n - 1):
        _dep(pk, i, i + 1, feats=["x"] if i == 0 else [])
    return pk


def fopt(n):
    """a feature of each crate activates the next and enables the same of it"""
    pk = _all(n, feats=lambda i: {} if i == 0 else {"x": [f"dep:p{i + 1:06d}", f"p{i + 1:06d}/x"] if i + 1 < n else []}, rf=lambda i: ["x"] if i else [])
    for i in range(n - 1):
        _dep(pk, i, i + 1, feats=["x"] if i == 0 else [], opt=i > 0)
    return pk


def fweak(n):
    """the same with a weak item"""
    pk = _all(n, feats=lambda i: {} if i == 0 else {"x": [f"p{i + 1:06d}?/x", f"dep:p{i + 1:06d}"] if i + 1 < n else []}, rf=lambda i: ["x"] if i else [])
    for i in range(n - 1):
        _dep(pk, i, i + 1, feats=["x"] if i == 0 else [], opt=i > 0)
    return pk


def fcross(n):
    """two features of each crate, each of which enables both of the next: 2^n ways"""
    nx = lambda i: [f"p{i + 1:06d}/a", f"p{i + 1:06d}/b"] if i + 1 < n else []
    pk = _all(n, feats=lambda i: {"a": nx(i), "b": nx(i)} if i else {}, rf=lambda i: ["a", "b"] if i else [])
    for i in range(n - 1):
        _dep(pk, i, i + 1, feats=["a", "b"] if i == 0 else [])
    return pk


def fdense(n):
    """one crate with n features, each of which enables all later ones"""
    fs = {f"f{k:06d}": [f"f{j:06d}" for j in range(k + 1, n)] for k in range(n)}
    pk = [_pkg(0, True), _pkg(1, False, fs, fs)]
    _dep(pk, 0, 1, feats=["f000000"])
    return pk


def fan(n):
    """all members depend on the same crate"""
    pk = _all(n, members=n - 1)
    for i in range(n - 1):
        _dep(pk, i, n - 1)
    return pk


def froot(n):
    """each feature of the root activates an optional dependency of its own, and a feature of it"""
    fs = {f"f{k:06d}": [f"dep:p{k:06d}", f"p{k:06d}/x"] for k in range(1, n)}
    pk = _all(n, feats=lambda i: {"x": []} if i else fs, rf=lambda i: ["x"] if i else fs)
    for i in range(1, n):
        _dep(pk, 0, i, opt=True)
    return pk


def multi(n):
    """one crate declares another once for each of n targets, every time with a feature of its own"""
    fs = {f"f{k:06d}": [] for k in range(n)}
    pk = [_pkg(0, True), _pkg(1, False, fs, fs)]
    for f in fs:
        _dep(pk, 0, 1, feats=[f])
        pk[0]["deps"][-1].update(target=f'cfg(my_key = "{f}")', ast={"t": "o", "f": "", "s": f'my_key = "{f}"'})
    return pk


def wwide(n):
    """one feature with n weak items, of which the last but one makes them count"""
    fs = {f"f{k:06d}": [] for k in range(n)}
    its = [f"p000001?/{f}" for f in fs]
    pk = [_pkg(0, True, {"w": its[:-1] + ["dep:p000001"] + its[-1:]}, ["w"]), _pkg(1, False, fs, fs)]
    _dep(pk, 0, 1, opt=True)
    return pk


# shape -> the size for the quick check, the size for the thorough one
SHAPES = dict(chain=(3000, 20000), star=(3000, 20000), ladder=(600, 3000), dense=(120, 400), ring=(2000, 8000), flist=(3000, 20000), fpass=(2000, 5000),
              fopt=(2000, 5000), fweak=(3000, 20000), fcross=(600, 5000), fdense=(120, 400), fan=(3000, 20000),
              froot=(300, 600), multi=(2000, 5000), wwide=(3000, 20000))


def world(shape, n):
    pk = globals()[shape](n)
    return dict(pkgs=pk, root=None, wsroot="/w", live=list(range(len(pk))), num={i: i + 1 for i in range(len(pk))})

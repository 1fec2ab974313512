"""C24 scoped GDAL configuration."""

from hypothesis import strategies as st
from osgeo import gdal

from lib.pbt import Check
from lib.util import fail

from aws.osml.gdal import GDALConfigEnv, set_gdal_default_configuration

check = Check(
    "C24",
    "Scoped GDAL configuration is in force inside its scope and fully undone after it, however it ends",
    ["configuration is read back with gdal.GetConfigOption in the thread that set it"],
)

AWS = ["AWS_SECRET_ACCESS_KEY", "AWS_ACCESS_KEY_ID", "AWS_SESSION_TOKEN"]
KEYS = ["VERIF_A", "VERIF_B", "VERIF_C", "VERIF_LONG_OPTION_NAME"]
ALL = KEYS + AWS
val = st.one_of(st.text("abc/+=19 %", min_size=0, max_size=12), st.integers(-5, 10**6), st.booleans(), st.sampled_from(["YES", "NO", "75%"]))
options = st.dictionaries(st.sampled_from(ALL), val, max_size=4)
creds = st.none() | st.tuples(*[st.text("abcXYZ/+=19", min_size=1, max_size=12)] * 3)
env = st.fixed_dictionaries({"options": st.none() | options, "creds": st.lists(creds, max_size=2), "mutate": st.booleans()})


class Boom(Exception):
    pass


def snapshot():
    return {k: gdal.GetConfigOption(k) for k in ALL}


def effective(e):
    d = {k: str(v) for k, v in (e["options"] or {}).items()}
    for c in e["creds"]:
        if c is not None:
            d.update(AWS_ACCESS_KEY_ID=c[0], AWS_SECRET_ACCESS_KEY=c[1], AWS_SESSION_TOKEN=c[2])
    return d


def build(e):
    o = None if e["options"] is None else dict(e["options"])
    x = GDALConfigEnv(o)
    for c in e["creds"]:
        r = x.with_aws_credentials(None if c is None else {"AccessKeyId": c[0], "SecretAccessKey": c[1], "SessionToken": c[2], "Expiration": "never"})
        if r is not x:
            fail("with_aws_credentials did not return the environment")
    if o is not None:
        if o != e["options"]:
            fail("the dictionary of options given was changed to %r", o)
        if e["mutate"]:
            o["VERIF_A"] = "changed later"
            o["VERIF_B"] = "changed later"
    return x


# a program: nested scopes over a pool of environments (the same one may be entered again, also while active), with direct
# option changes inside and a scope that ends normally or by an exception
action = st.deferred(
    lambda: st.one_of(
        st.tuples(st.just("set"), st.sampled_from(ALL), st.none() | st.sampled_from(["x", "y"])),
        st.tuples(st.just("scope"), st.integers(0, 2), st.lists(action, max_size=3), st.booleans()),
    )
)


@check.sub(
    "program",
    st.tuples(options, st.lists(env, min_size=3, max_size=3), st.lists(action, min_size=1, max_size=5)),
    quick=1500,
    shards=3,
    rule="nested scopes that change a common option",
)
def program(case):
    initial, envs, actions = case
    for k in ALL:
        gdal.SetConfigOption(k, str(initial[k]) if k in initial else None)
    try:
        objs = [build(e) for e in envs]
        eff = [effective(e) for e in envs]
        nested = False
        model = snapshot()

        def run(acts, active):
            nonlocal nested
            for a in acts:
                if a[0] == "set":
                    gdal.SetConfigOption(a[1], a[2])
                    model[a[1]] = a[2]
                    continue
                _, i, body, raises = a
                before = dict(model)
                boom = Boom(i)
                try:
                    with objs[i]:
                        model.update(eff[i])
                        if snapshot() != model:
                            fail("inside the scope: %r, expected %r", snapshot(), model)
                        if any(set(eff[i]) & set(eff[j]) for j in active):
                            nested = True
                        run(body, active + [i])
                        if raises:
                            raise boom
                    if raises:
                        fail("the scope swallowed an exception")
                except Boom as e:
                    if e is not boom:
                        raise
                for k in eff[i]:
                    model[k] = before[k]
                if snapshot() != model:
                    fail("after the scope: %r, expected %r", snapshot(), model)

        run(actions, [])
        return nested
    finally:
        for k in ALL:
            gdal.SetConfigOption(k, None)


DEFAULTS = {
    "VSI_CACHE": "YES",
    "VSI_CACHE_SIZE": "10000000000",
    "GDAL_GCPS_TO_GEOTRANSFORM_APPROX_OK": "YES",
    "GDAL_MAX_DATASET_POOL_SIZE": "1000",
    "CPL_VSIL_CURL_CACHE_SIZE": str(500 * 10 * 1024 * 1024),
    "GDAL_DISABLE_READDIR_ON_OPEN": "EMPTY_DIR",
    "GDAL_CACHEMAX": "75%",
    "GDAL_NUM_THREADS": "1",
    "BIGTIFF_OVERVIEW": "YES",
    "USE_TILE_AS_BLOCK": "YES",
    "CPL_DEBUG": "OFF",
    "CPL_VSIL_CURL_CHUNK_SIZE": str(10 * 1024 * 1024),
}


@check.sub("defaults", options, quick=60, rule="other options are set")
def defaults(o):
    """the defaults are independent of what is set before and leave other options alone"""
    saved = {k: gdal.GetConfigOption(k) for k in DEFAULTS}
    try:
        for k, v in o.items():
            gdal.SetConfigOption(k, str(v))
        for k in DEFAULTS:
            gdal.SetConfigOption(k, "0")
        set_gdal_default_configuration()
        for k, v in DEFAULTS.items():
            if gdal.GetConfigOption(k) != v:
                fail("%s is %r, expected %r", k, gdal.GetConfigOption(k), v)
        for k, v in o.items():
            if gdal.GetConfigOption(k) != str(v):
                fail("%s was changed to %r", k, gdal.GetConfigOption(k))
        with GDALConfigEnv({"VSI_CACHE": "NO"}):
            if gdal.GetConfigOption("VSI_CACHE") != "NO":
                fail("the default wins inside a scope")
        if gdal.GetConfigOption("VSI_CACHE") != "YES":
            fail("the default is lost after a scope")
    finally:
        for k, v in saved.items():
            gdal.SetConfigOption(k, v)
        for k in ALL:
            gdal.SetConfigOption(k, None)
    return bool(o)

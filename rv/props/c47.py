"""C47: dates and times."""

import datetime as D
import os
import time
import zoneinfo

import hypothesis.strategies as st
import numpy as np

from .. import gen
from ..core import Prop, Sub

ORIGIN = D.datetime(1899, 12, 30, tzinfo=D.timezone.utc)
US = D.timedelta(microseconds=1)
ZONES = ["UTC", "Europe/Paris", "America/New_York", "Asia/Kolkata", "Australia/Lord_Howe", "Pacific/Apia", "America/St_Johns", "Asia/Kathmandu"]
OFFSETS = ["+00:00", "-05:00", "+05:30", "+13:45", "-03:30", "+0200"]
datetimes = st.one_of(
    st.datetimes(D.datetime(1800, 1, 1), D.datetime(2200, 1, 1)),
    st.datetimes(D.datetime(1971, 1, 1), D.datetime(2060, 1, 1)),
    st.datetimes(D.datetime(1971, 1, 1), D.datetime(2060, 1, 1)).map(lambda d: d.replace(microsecond=0)),
    st.sampled_from([D.datetime(1899, 12, 30), D.datetime(1899, 12, 29, 18), D.datetime(1900, 2, 28, 23, 59, 59), D.datetime(2016, 2, 29, 12), D.datetime(2000, 1, 1)]),
)


def offset_of(text):
    s, t = text[0], text[1:].replace(":", "")
    m = int(t[:2]) * 60 + int(t[2:])
    return D.timezone(D.timedelta(minutes=-m if s == "-" else m))


class Zone:
    """The time zone of the computer during a block."""

    def __init__(self, name):
        self.name = name

    def __enter__(self):
        self.old = os.environ.get("TZ")
        os.environ["TZ"] = self.name
        time.tzset()

    def __exit__(self, *a):
        if self.old is None:
            del os.environ["TZ"]
        else:
            os.environ["TZ"] = self.old
        time.tzset()


def days(dt):
    """Days since the origin, exact up to the last division."""
    return ((dt - ORIGIN) // US) / 86_400_000_000


def near(dt, serial, us=3):
    return abs(dt - ORIGIN - D.timedelta(microseconds=round(serial * 86_400_000_000))) <= us * US


serials = st.fixed_dictionaries(
    dict(
        dt=datetimes,
        zone=st.sampled_from(ZONES),
        tz=st.one_of(st.none(), st.sampled_from(ZONES + OFFSETS)),
        utc=st.sampled_from(["UTC", None, "Coordinated Universal Time", "default"]),
        inside=st.booleans(),
        kind=st.sampled_from(["float", "np.float64"]),
    )
)


def check_serial(f, ctx):
    from rsciio.utils._date_time import ISO_format_to_serial_date, datetime_to_serial_date, serial_date_to_datetime, serial_date_to_ISO_format

    naive = f["dt"]
    utc = naive.replace(tzinfo=D.timezone.utc)
    exp = days(utc)
    ulp = 2e-11  # days, two units of the last place
    for d in (naive, utc, utc.astimezone(D.timezone(D.timedelta(hours=5, minutes=30)))):
        got = ctx.sut(datetime_to_serial_date, d)
        ctx.expect(abs(got - exp) <= ulp, "datetime_to_serial_date", f"{d}: {got!r} for {exp!r}")
    serial = np.float64(exp) if f["kind"] != "float" else exp
    back = ctx.sut(serial_date_to_datetime, serial)
    ctx.expect(back.tzinfo is not None and abs(back - utc) <= 3 * US, "serial_date_to_datetime", f"{exp!r}: {back} for {utc}")
    # ISO format, in the time zone of the computer
    if utc.year >= 1972 and utc.year <= 2037:
        with Zone(f["zone"]):
            date, t, name = ctx.sut(serial_date_to_ISO_format, serial)
            local = utc.astimezone(zoneinfo.ZoneInfo(f["zone"]))
        got = D.datetime.fromisoformat(f"{date}T{t}")
        ctx.expect(abs(got - local.replace(tzinfo=None)) <= 3 * US, "local date", f"{date} {t} {name} for {local}")
        if abs(local.microsecond - 500_000) < 499_000:  # not within the error of a transition
            ctx.expect(name == local.tzname(), "name of the time zone", f"{name} for {local.tzname()}")
        ctx.label("local date")
    # ISO format to serial date
    date, t = naive.date().isoformat(), naive.time().isoformat()
    if f["tz"] is None:
        kw = {} if f["utc"] == "default" else {"timezone": f["utc"]}
        aware = utc
    elif f["tz"] in ZONES:
        kw = {"timezone": f["tz"]}
        aware = naive.replace(tzinfo=zoneinfo.ZoneInfo(f["tz"]))
        if not 1972 <= naive.year <= 2037 or aware.astimezone(D.timezone.utc).astimezone(aware.tzinfo).replace(tzinfo=None) != naive or aware.utcoffset() != aware.replace(fold=1).utcoffset():
            kw = None  # a local time that doesn't exist, exists twice, or isn't in the tables
    else:
        kw = {"timezone": f["tz"]}
        aware = naive.replace(tzinfo=offset_of(f["tz"]))
        if f["inside"]:
            t += f["tz"]
    if kw is not None:
        got = ctx.sut(ISO_format_to_serial_date, date, t, **kw)
        exp = days(aware)
        ctx.expect(abs(got - exp) <= ulp, "ISO_format_to_serial_date", f"{date} {t} {kw}: {got!r} for {exp!r}")
        ctx.label("from ISO format")
    if naive.microsecond or naive < ORIGIN.replace(tzinfo=None) or f["tz"]:
        ctx.nontrivial()


metadata = st.fixed_dictionaries(
    dict(
        dt=datetimes,
        tz=st.one_of(st.none(), st.just(""), st.sampled_from(ZONES + OFFSETS)),
        which=st.sampled_from(["both", "both", "both", "date", "time", "none"]),
        empty=st.sampled_from([None, ""]),
        formatting=st.sampled_from([None, "ISO", "datetime", "datetime64"]),
    )
)


def check_metadata(f, ctx):
    from rsciio.utils._date_time import get_date_time_from_metadata

    naive = f["dt"]
    date, t = naive.date().isoformat(), naive.time().isoformat()
    g = {"title": "x"}
    if f["which"] in ("both", "date"):
        g["date"] = date
    elif f["empty"] is not None:
        g["date"] = f["empty"]
    if f["which"] in ("both", "time"):
        g["time"] = t
    elif f["empty"] is not None:
        g["time"] = f["empty"]
    if f["tz"] is not None:
        g["time_zone"] = f["tz"]
    md = {"General": g}
    kw = {} if f["formatting"] is None else {"formatting": f["formatting"]}
    fmt = f["formatting"] or "ISO"
    if f["which"] == "time" and fmt == "datetime64":
        return
    got = ctx.sut(get_date_time_from_metadata, md, **kw)
    what = f"{g} as {fmt}: {got!r}"
    if f["which"] == "none":
        ctx.expect(got is None, "nothing known", what)
        return
    if f["which"] == "date":
        exp = {"ISO": date, "datetime": naive.date(), "datetime64": np.datetime64(date)}[fmt]
    elif f["which"] == "time":
        exp = {"ISO": t, "datetime": naive.time()}[fmt]
    elif fmt == "datetime64":
        exp = np.datetime64(naive)
    else:
        aware = naive
        if f["tz"] in ZONES:
            aware = naive.replace(tzinfo=zoneinfo.ZoneInfo(f["tz"]))
            if not 1972 <= naive.year <= 2037:
                return
        elif f["tz"]:
            aware = naive.replace(tzinfo=offset_of(f["tz"]))
        if fmt == "ISO":
            # the same local time, the same offset
            back = D.datetime.fromisoformat(got)
            ctx.expect(isinstance(got, str) and back.replace(tzinfo=None) == naive and back.utcoffset() == aware.utcoffset(), "date and time", f"{what} for {aware}")
            ctx.nontrivial(bool(f["tz"]))
            return
        ctx.expect(isinstance(got, D.datetime) and got.replace(tzinfo=None) == naive and got.utcoffset() == aware.utcoffset(), "date and time", f"{what} for {aware}")
        ctx.nontrivial(bool(f["tz"]))
        return
    ctx.expect(type(got) is type(exp) and got == exp, "date or time", f"{what} for {exp!r}")
    ctx.nontrivial()


filetimes = st.fixed_dictionaries(dict(ticks=st.one_of(st.integers(0, 2**58), st.integers(116444736000000000, 140000000000000000)), kind=st.sampled_from(["int", "int64", "uint64"])))


def check_filetime(f, ctx):
    from rsciio.utils._date_time import msfiletime_to_unix

    t = {"int": int, "int64": np.int64, "uint64": np.uint64}[f["kind"]](f["ticks"])
    got = ctx.sut(msfiletime_to_unix, t)
    exp = D.datetime(1601, 1, 1) + D.timedelta(microseconds=f["ticks"] // 10)
    ctx.expect(exp - US <= got <= exp + US, "file time", f"{f}: {got} for {exp}")
    ctx.nontrivial(f["ticks"] > 2**53)


blockfiles = st.fixed_dictionaries(
    dict(dt=st.datetimes(D.datetime(1972, 1, 2), D.datetime(2037, 1, 1)), zone=st.sampled_from(ZONES), endian=st.sampled_from("<>"), keep=st.booleans())
)


def check_blockfile(f, ctx):
    from rsciio.blockfile import file_reader, file_writer

    utc = f["dt"].replace(tzinfo=D.timezone.utc)
    data = np.arange(24, dtype="u1").reshape(2, 3, 2, 2)
    axes = [dict(name=n, size=s, scale=1.0, offset=0.0, units="nm" if i < 2 else "cm", navigate=i < 2, index_in_array=i) for i, (n, s) in enumerate(zip(["y", "x", "dy", "dx"], data.shape))]
    sig = dict(data=data, axes=axes, metadata={"General": {"title": "", "notes": ""}, "Signal": {}}, original_metadata={"blockfile_header": {"Acquisition_time": days(utc), "Note": ""}}, attributes={"_lazy": False})
    path = ctx.path("a.blo")
    ctx.sut(file_writer, path, sig, endianness=f["endian"], navigator=None)
    with Zone(f["zone"]):
        (got,) = ctx.sut(file_reader, path, endianness=f["endian"])
        local = utc.astimezone(zoneinfo.ZoneInfo(f["zone"]))
    g = got["metadata"]["General"]
    back = D.datetime.fromisoformat(f"{g['date']}T{g['time']}")
    ctx.expect(abs(back - local.replace(tzinfo=None)) <= 3 * US, "date of a blockfile", f"{g} for {local}")
    if abs(local.microsecond - 500_000) < 499_000:
        ctx.expect(g["time_zone"] == local.tzname(), "time zone of a blockfile", f"{g} for {local.tzname()}")
    ctx.nontrivial()


PROP = Prop(
    "C47",
    "a date with a fraction of a second, a time zone or before the origin, or only a part of a date, was converted",
    [
        Sub("serial", lambda: serials, check_serial, quick=4000, shards=3),
        Sub("metadata", lambda: metadata, check_metadata, quick=4000, shards=2),
        Sub("filetime", lambda: filetimes, check_filetime, quick=2000, shards=1),
        Sub("blockfile", lambda: blockfiles, check_blockfile, quick=600, shards=2),
    ],
)

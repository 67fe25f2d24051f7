"""C29: readers of raw disdrometer files give every telegram once, with its own time."""

from __future__ import annotations

import datetime
import itertools

import netCDF4
import numpy as np
from numpy import ma

from mc.core import Out, check

LEVEL = "model_checking"
T0 = datetime.datetime(2024, 2, 29, 23, 58, 0)


def stamp(i):
    return T0 + datetime.timedelta(minutes=i)


def compare(time, data, want, label):
    """want: [(time, {number: value})]; None in place of a value: missing"""
    got = [t.replace(tzinfo=None) for t in list(time)]
    check(got == [w[0] for w in want], f"{label}: times {[str(t) for t in got]} instead of {[str(w[0]) for w in want]}")
    keys = sorted({k for _, row in want for k in row})
    check(not want or sorted(data) == keys, lambda: f"{label}: fields {sorted(data)} instead of {keys}")
    for key in keys:
        column = data[key]
        check(len(column) == len(want), f"{label}: field {key} has {len(column)} rows for {len(want)} times")
        for i, (_, row) in enumerate(want):
            value, w = column[i], row.get(key)
            missing = ma.getmaskarray(ma.masked_array(value))
            if w is None:
                if not np.all(missing):  # not a number is missing, too
                    check(not isinstance(value, (str, bytes)) and np.all(np.isnan(np.asarray(value, "f8"))), f"{label}: row {i} field {key}: {value} instead of missing")
                continue
            check(not np.any(missing), f"{label}: row {i} field {key} is missing instead of {w}")
            if isinstance(w, (int, float, list, np.ndarray)):
                g, w = np.asarray(value, "f8"), np.asarray(w, "f8")
                check(g.shape == w.shape, f"{label}: row {i} field {key} has shape {g.shape} instead of {w.shape}")
                bad = np.argwhere(~np.isclose(g, w, rtol=1e-6, atol=1e-9))
                check(not len(bad), lambda: f"{label}: row {i} field {key} at {bad[0].tolist()}: {g[tuple(bad[0])]} instead of {w[tuple(bad[0])]}")
            else:
                check(value == w, f"{label}: row {i} field {key}: {value!r} instead of {w!r}")


# ---------------------------------------------------------------- Parsivel

INTS, FLOATS = (3, 4, 8, 9, 10, 11, 12, 13, 18, 25, 26, 27, 28, 60), (1, 2, 7, 16, 17, 24, 30, 31, 33, 34, 35)
PYATLO = {"rain rate [mm/h]": 1, "rain accum [mm]": 2, "wawa": 3, "Z [dBz]": 7, "MOR visibility [m]": 8, "sample interval [s]": 9, "Signal amplitude": 10, "Number of detected particles": 11, "Temperature sensor [°C]": 12, "Serial number": 13, "IOP firmware version": 14, "Current heating system [A]": 16, "Power supply voltage in the sensor [V]": 17, "Sensor status": 18, "Station name": 22, "Rain amount absolute [mm]": 24, "Error code": 25, "N": 90, "v": 91, "M": 93}
MORE = {"wawa [ww]": 4, "wawa [METAR]": 5, "wawa [NWS]": 6, "DSP firmware version": 15, "Temperature PCB [°C]": 26, "Temperature right sensor head [°C]": 27, "Temperature left sensor head [°C]": 28, "Rain intensity 16 bit low [mm/h]": 30, "Rain intensity 16 bit high [mm/h]": 31, "Reflectivity 16 bit [dBZ]": 33, "Kinetic energy [J m-2 h-1)]": 34, "Snow depth intensity (vol equiv.) [mm/h]": 35, "Number of particles": 60}
ASDO = {"Intensity of precipitation (mm/h)": 1, "Precipitation since start (mm)": 2, "Radar reflectivity (dBz)": 7, "MOR Visibility (m)": 8, "Signal amplitude of Laserband": 10, "Number of detected particles": 11, "Temperature in sensor (°C)": 12, "Heating current (A)": 16, "Sensor voltage (V)": 17, "Kinetic Energy": 34, "Snow intensity (mm/h)": 35, "Weather code SYNOP WaWa": 3, "Weather code METAR/SPECI": 5, "Weather code NWS": 6, "Optics status": 18, "Spectrum": 93}
GRANADA = {"rain_intensity": 1, "snow_intensity": 35, "precipitation": 24, "weather_code_wawa": 3, "radar_reflectivity": 7, "mor_visibility": 8, "kinetic_energy": 34, "signal_amplitude": 10, "sensor_temperature": 12, "pbc_temperature": 26, "right_temperature": 27, "left_temperature": 28, "heating_current": 16, "sensor_voltage": 17, "sensor_status": 18, "error_code": 25, "number_particles": 11, "N": 90, "V": 91, "spectrum": 93}
PLAIN = [1, 2, 3, 7, 8, 9, 10, 11, 12, 13, 14, 16, 17, 18, 24, 25, 90, 91, 93]
OP4A = [1, 2, 3, 4, 7, 8, 9, 10, 11, 12, 13, 16, 17, 18, 24, 25, 26, 27, 28, 30, 31, 34, 35, 90, 91, 93]
COLUMNS = {"pyatlo": list(PYATLO.values()), "pyatlo more": list({**PYATLO, **MORE}.values())[:17] + list(MORE.values()) + [90, 91, 93], "asdo": list(ASDO.values()), "granada": list(GRANADA.values()), "plain": PLAIN, "plain comma": PLAIN}


def telegram(i, keys):
    """What telegram i says."""
    row = {}
    for k in keys:
        if k in INTS:
            row[k] = (k * 3 + i) * (-1 if k in (12, 26) else 1)
        elif k in FLOATS:
            row[k] = (k + i * 0.125) * (-1 if k == 7 else 1)
        elif k == 90:
            row[k] = [-9.999 if (j + i) % 5 == 0 else j * 0.25 + i for j in range(32)]
        elif k == 91:
            row[k] = [j * 0.5 + i for j in range(32)]
        elif k == 93:
            m = np.zeros((32, 32))
            if i % 3:
                m[i % 32, :] = np.arange(32) + i
                m[:, 5] += i
            row[k] = m
        else:
            row[k] = f"k{k}.{i}".encode()
    return row


def fields(row, keys, comma=False, spectrum="numbers"):
    out = []
    for k in keys:
        if k == 93:
            flat = row[k].astype(int).ravel().tolist()
            if spectrum == "tags":
                out.append("<SPECTRUM>" + ("ZERO" if not any(flat) else ";".join(str(x) if x else "" for x in flat)) + "</SPECTRUM>")
            else:
                out += [f"{x:03d}" for x in flat]
        elif k in (90, 91):
            out += [f"{x:06.3f}" for x in row[k]]
        elif isinstance(row[k], bytes):
            out.append(row[k].decode())
        elif isinstance(row[k], float):
            out.append(f"{row[k]:08.3f}".replace(".", "," if comma else "."))
        else:
            out.append(f"{row[k]:05d}")
    return out


NOT_NUMBERS = ("", "x", "1.2.3", "0-1")


def spoiled(line, letter, first):
    """line: fields including those of time"""
    line = list(line)
    if letter == "short":
        return line[:-1]
    if letter == "half":
        return line[: len(line) // 2]
    if letter == "long":
        return [*line, "000"]
    if letter == "double":
        return line + line[first:]
    if letter == "empty":
        return []
    if letter == "time":
        k = {"-": 5, ":": 0}.get(next((c for c in line[first - 1] if not c.isdigit()), ""), 4)  # the month or the hour
        line[first - 1] = line[first - 1][:k] + "99" + line[first - 1][k + 2 :]
        return line
    if letter == "clock":  # text in the place of the time
        line[first - 1] = "no time"
        return line
    if isinstance(letter, tuple):
        line[first + letter[0]] = NOT_NUMBERS[letter[1]]
        return line
    return line


def write_parsivel(path, fmt, rows, end, latin):
    """rows: (number, letter)"""
    keys = COLUMNS[fmt]
    sep = "," if fmt == "granada" else ";"
    lines = []
    if fmt.startswith("pyatlo"):
        names = {v: k for k, v in {**PYATLO, **MORE}.items()}
        head = ["datetime_utc"]
        for k in keys:
            head += [f"N{i:02}" for i in range(32)] if k == 90 else [f"v{i:02}" for i in range(32)] if k == 91 else [f"M_{i}_{j}" for i in range(32) for j in range(32)] if k == 93 else [names[k]]
        lines.append(";".join(head))
    elif fmt == "asdo":
        lines.append(";".join(["Date", "Time", *ASDO]))
    elif fmt == "granada":
        head = ["TIMESTAMP", "RECORD"]
        for name, k in GRANADA.items():
            head += [f"N({i + 1})" for i in range(32)] if k == 90 else [f"V({i + 1})" for i in range(32)] if k == 91 else [f"spectrum({i + 1})" for i in range(1024)] if k == 93 else [name]
        lines += ['"TOA5","CR1000","CR1000"', ",".join(f'"{h}"' for h in head), '"TS","RN"', '"",""']
    for i, letter in rows:
        t = stamp(i)
        prefix = {"asdo": [f"{t:%Y/%m/%d}", f"{t:%H:%M:%S}"], "granada": [f'"{t:%Y-%m-%d %H:%M:%S}"', f"{i}"], "plain": [f"{t:%Y%m%d%H%M%S}"], "plain comma": [f"{t:%d.%m.%Y}", f"{t:%H:%M:%S}"]}.get(fmt, [f"{t:%Y-%m-%d %H:%M:%S}"])
        body = fields(telegram(i, keys), keys, fmt == "plain comma" or fmt == "asdo", "tags" if fmt in ("asdo", "plain comma") and letter in ("good", "separator") else "numbers")
        if letter == "time" and fmt == "granada":
            prefix[0] = prefix[0][:6] + "99" + prefix[0][8:]
            lines.append(sep.join(prefix + body))
            continue
        if letter == "clock" and fmt == "granada":
            prefix[0] = '"no time"'
            lines.append(sep.join(prefix + body))
            continue
        lines.append(sep.join(spoiled(prefix + body, letter, len(prefix))) + (sep if letter == "separator" else ""))
    with open(path, "wb") as f:
        f.write(end.join(lines + [""]).encode("latin1" if latin else "utf8"))


def run_parsivel(case, tmp):
    from cloudnetpy.disdronator import read_parsivel

    fmt, states = case["format"], []
    keys = COLUMNS[fmt]
    for seq in case["rows"]:
        rows = [(i, tuple(x) if isinstance(x, list) else x) for i, x in enumerate(seq)]
        want = []
        for i, letter in rows:
            if letter in ("good", "separator") or (isinstance(letter, tuple) and not numeric(keys, letter[0])):
                row = telegram(i, keys)
                if isinstance(letter, tuple):
                    row[text_key(keys, letter[0])] = NOT_NUMBERS[letter[1]].encode()
                want.append((stamp(i), row))
        path = f"{tmp}/in.txt"
        write_parsivel(path, fmt, rows, case["end"], case["latin"])
        args = {}
        if fmt == "plain":
            args = {"telegram": ["%Y%m%d%H%M%S", *keys]}
        elif fmt == "plain comma":
            args = {"telegram": ["%d.%m.%Y", "%H:%M:%S", *keys], "decimal_separator": ","}
        time, data = read_parsivel(path, **args)
        compare(time, data, want, f"{fmt} {seq}")
        states.append(f"{fmt}{seq}{case['end']!r}{case['latin']}")
    return Out(states=states, transitions=sum(len(s) for s in case["rows"]), traces=len(states))


def spans(keys):
    out = []
    for k in keys:
        out += [k] * {90: 32, 91: 32, 93: 1024}.get(k, 1)
    return out


def numeric(keys, pos):
    k = spans(keys)[pos]
    return k in INTS or k in FLOATS or k in (90, 91, 93)


def text_key(keys, pos):
    return spans(keys)[pos]


# ------------------------------------------------------------ TYP OP4A logs

def op4a(row, keys):
    lines = ["TYP OP4A"]
    for k in keys:
        v = row[k]
        if k == 93:
            text = ";".join(f"{int(x):03d}" for x in v.ravel()) + ";"
        elif k in (90, 91):
            text = ";".join(f"{x:06.3f}" for x in v) + ";"
        elif isinstance(v, float):
            text = f"{v:08.3f}"
        else:
            text = f"{v:05d}"
        lines.append(f"{k:02d}:{text}")
    return lines


def run_op4a(case, tmp):
    from cloudnetpy.disdronator import read_parsivel

    states = []
    for seq in case["rows"]:
        text, want = "", []
        for i, letter in enumerate(seq):
            row, t = telegram(i, OP4A), stamp(i)
            head, lines = f"[{t:%Y-%m-%d %H:%M:%S}", op4a(row, OP4A)
            good = True
            if letter == "number":
                lines[6], good = lines[6][:3] + "x1", False
            elif letter == "colon":
                lines[5], good = "0812", False
            elif letter == "time":
                head, good = f"[{t:%Y-%m}-99 {t:%H:%M:%S}", False
            elif letter == "no end":  # the next record starts without this one having ended
                good = False
            elif letter == "N short":
                j = OP4A.index(90) + 1
                lines[j], good = lines[j][:-7], False
            elif letter == "M short":
                lines[-1], good = lines[-1][:-4], False
            elif letter == "type":
                lines[0], good = "TYP OP4B", False
            elif isinstance(letter, int):  # a field less
                lines = [ln for ln in lines if not ln.startswith(f"{letter:02d}:")]
                del row[letter]
            elif letter == "other":  # a field nobody asked for
                lines.insert(4, "99:abc")
            text += head + case["end"] + case["end"].join(lines) + case["end"] + ("]" if letter != "no end" else "") + case["end"]
            if good:
                want.append((t, row))
        # without an end the next record belongs to the broken one
        if "no end" in seq:
            k = seq.index("no end")
            want = [w for w in want if w[0] != stamp(k + 1)]
        path = f"{tmp}/in.txt"
        with open(path, "w", newline="") as f:
            f.write(text)
        time, data = read_parsivel(path)
        compare(time, data, want, f"records {seq}")
        states.append(f"{seq}{case['end']!r}")
    return Out(states=states, transitions=sum(len(s) for s in case["rows"]), traces=len(states))


# ----------------------------------------------------------- netCDF loggers

NETCDF = {
    "parsivel2nc": {"interval": 9, "data_raw": 93, "number_concentration": 90, "fall_velocity": 91, "n_particles": 11, "rainfall_rate": 1, "radar_reflectivity": 7, "E_kin": 34, "visibility": 8, "synop_WaWa": 3, "synop_WW": 4, "T_sensor": 12, "sig_laser": 10, "state_sensor": 18, "V_sensor": 17, "I_heating": 16, "error_code": 25},
    "disdrodl": {"rain_intensity": 1, "code_4680": 3, "code_4677": 4, "reflectivity": 7, "MOR": 8, "amplitude": 10, "n_particles": 11, "T_sensor": 12, "I_heating": 16, "V_power_supply": 17, "state_sensor": 18, "absolute_rain_amount": 24, "error_code": 25, "T_pcb": 26, "T_L_sensor_head": 27, "T_R_sensor_head": 28, "kinetic_energy": 34, "snowfall_intensity": 35, "fieldN": 90, "fieldV": 91, "data_raw": 93},
    "munich": {"status_sensor": 18, "error_code": 25, "rr": 1, "rain_accum": 2, "wawa": 3, "Ze": 7, "n_particles": 11, "snow_intensity": 35, "sample_interval": 9, "serial_no": 13, "curr_heating": 16, "volt_sensor": 17, "signal_amplitude": 10, "T_sensor_housing": 12, "T_pcb": 26, "T_sensor_right": 27, "T_sensor_left": 28, "N": 90, "v": 91, "M": 93, "sensor_time": 20, "firmware_IOP": 14, "firmware_DSP": 15},
    "leipzig": {"Meas_Interval": 9, "RR_Intensity": 1, "RR_Accumulated": 2, "RR_Total": 24, "Synop_WaWa": 3, "Synop_WW": 4, "Reflectivity": 7, "Visibility": 8, "T_Sensor": 12, "Sig_Laser": 10, "N_Particles": 11, "State_Sensor": 18, "E_kin": 34, "V_Sensor": 17, "I_Heating": 16, "Error_Code": 25, "Data_N_Field": 90, "Data_V_Field": 91, "Data_Raw": 93},
}
EITHER = {27: 28, 28: 27}  # the side of a sensor head is not judged


def run_netcdf(case, tmp):
    from cloudnetpy.disdronator import read_parsivel

    fmt, n, path = case["format"], case["n"], f"{tmp}/in.nc"
    names = {k: v for k, v in NETCDF[fmt].items() if k not in case.get("without", [])}
    rows = [telegram(i + 1, [*names.values(), *EITHER]) for i in range(n)]
    if fmt == "disdrodl":
        for row in rows:
            row[28] = row[27]
    for i, number in case["missing"]:
        rows[i][number] = None
    kwargs = {"fill_value": case["fill"]} if case["fill"] else {}
    with netCDF4.Dataset(path, "w", format="NETCDF4") as nc:
        nc.createDimension("time", n)
        nc.createDimension("d", 32)
        nc.createDimension("v", 32)
        tname = "Meas_Time" if fmt == "leipzig" else "time"
        v = nc.createVariable(tname, "f8", ("time",))
        v.units = "seconds since 1970-01-01" if fmt == "leipzig" else case["units"]
        start = datetime.datetime(1970, 1, 1) if fmt == "leipzig" else datetime.datetime.fromisoformat(case["units"].split(" since ")[1])
        scale = {"seconds": 1, "hours": 3600}[v.units.split()[0]]
        v[:] = [(stamp(i) - start).total_seconds() / scale for i in range(n)]
        for name, number in names.items():
            text = number in (14, 15, 20)
            dims = ("time", "d", "v") if number == 93 else ("time", "d") if number in (90, 91) else ("time",)
            v = nc.createVariable(name, str if text else "f4" if number in (*FLOATS, 90, 91) or fmt == "parsivel2nc" else "i4", dims, **({} if text else kwargs))
            for i in range(n):
                w = rows[i].get(number)
                if text:
                    v[i] = f"{number}.{i}"
                    rows[i][number] = f"{number}.{i}"
                    continue
                if w is None:
                    v[i] = ma.masked_all(v[i].shape) if number in (90, 91, 93) else ma.masked
                    continue
                w = np.asarray(w, "f8")
                if fmt == "parsivel2nc" and number == 1:
                    w = w / 3600 / 1000
                if fmt == "parsivel2nc" and number == 12 and i == 0:
                    w = w + 273
                if fmt == "munich" and number == 93:
                    w = w.T
                v[i] = w
        serial = 451221
        if fmt in ("parsivel2nc", "leipzig"):
            nc.Sensor_ID = str(serial)
        if fmt == "disdrodl":
            nc.sensor_serial_number = str(serial)
            v = nc.createVariable("time_interval", "i4", ())
            v[:] = 60
        if fmt == "leipzig":
            nc.Station_Name, nc.Station_ID = "LEIPZIG", "L1"
    want = []
    for i in range(n):
        row = {k: rows[i].get(k) for k in names.values()}
        if fmt != "munich":
            row[13] = serial
        if fmt == "disdrodl":
            row[9] = 60
        if fmt == "leipzig":
            row |= {22: "LEIPZIG", 23: "L1"}
        want.append((stamp(i), row))
    time, data = read_parsivel(path)
    compare(time, data, want, f"{fmt} {case['missing']}")
    return None


# --------------------------------------------------------------------- LPM

LPM_INT = {2, 3, 7, 8, 11, 12, 18, *range(20, 21), *range(22, 46), 47, 48, 49, 50, 51, 524, *range(81, 521)}
LPM_FLOAT = {10, 14, 15, 16, 17, 19, 21, 46, 521, 522, 523}
LPM_FILL = {18: "99999", 19: "-9.9", 46: "99999", 47: "999", 48: "9999", 49: "9999", 50: "9999", 521: "99999", 522: "99999", 523: "9999", 524: "999"}


def lpm_telegram(i, last, fill=False):
    """({number: value}, fields)"""
    row, text = {}, []
    t = stamp(i)
    for no in range(2, last + 1):
        if no == 5:
            row[no], s = t.date(), f"{t:%d.%m.%y}"
        elif no == 6:
            row[no], s = t.time(), f"{t:%H:%M:%S}"
        elif fill and no in LPM_FILL:
            row[no], s = None, LPM_FILL[no]
        elif no in LPM_INT:
            row[no] = (no * 7 + i * 3) % 900 * (-1 if no == 36 else 1)
            s = f"{row[no]:+03d}" if no == 36 else f"{row[no]:03d}"
        elif no in LPM_FLOAT:
            row[no] = no % 40 + i * 0.5
            s = f"{row[no]:07.3f}"
        else:
            row[no] = s = f"a{no}.{i}"
        text.append(s)
    return row, [*text, "AB" if i % 2 else "17"]  # a checksum may look like a number


LPM_CUT = {f"cut {n}": n for n in (521, 522, 523, 519, 300, 525)}


def run_lpm(case, tmp):
    from cloudnetpy.disdronator import read_lpm

    fmt, states = case["format"], []
    for seq in case["rows"]:
        lines, want = [], []
        if fmt == "pyatlo":
            lines.append("datetime [utc];STX (start identifier);Device address")
        elif fmt == "lampedusa":
            lines += ['"TOA5","16165"', '"TIMESTAMP","RECORD","RawString"', '"TS","RN",""', '"","",""']
        for i, letter in enumerate(seq):
            letter = tuple(letter) if isinstance(letter, list) else letter
            last = 524 if letter == "extended" or letter in LPM_CUT else 520
            row, text = lpm_telegram(i, last, letter == "fill")
            t, good = f"{stamp(i):%Y-%m-%d %H:%M:%S}", letter in ("good", "extended", "fill", "separator")
            if letter == "short":
                text = text[:-1]
            elif letter == "long":
                text = [*text, "000"]
            elif letter == "cut":
                text = text[:60]
            elif letter == "time":
                if fmt == "raw":
                    text[4] = "25:00:00"
                else:
                    t = t[:11] + "25:00:00"
            elif letter == "date":
                text[3] = "31.02.24"
            elif letter in LPM_CUT:
                text = (text + ["000"])[: LPM_CUT[letter]]
            elif isinstance(letter, tuple):
                no = letter[0] + 2
                text[letter[0]] = NOT_NUMBERS[letter[1]]
                if no not in (5, 6) and no not in LPM_INT and no not in LPM_FLOAT:
                    good = True
                    if no <= last:
                        row[no] = NOT_NUMBERS[letter[1]]
            body = ";".join(text) + (";" if letter in ("separator", "fill") else "")
            if letter == "empty":
                lines.append("")
            elif letter == "word":
                lines.append("abc")
            elif fmt == "pyatlo":
                lines.append(f"{t};{body}")
            elif fmt == "lampedusa":
                lines.append(f'"{t}",{i},"{body}"')
            else:
                lines.append(body)
            if good:
                want.append((stamp(i), row))
        path = f"{tmp}/in.txt"
        with open(path, "w", newline="") as f:
            f.write(case["end"].join([*lines, ""]))
        time, data = read_lpm(path)
        compare(time, data, want, f"LPM {fmt} {seq}")
        states.append(f"{fmt}{seq}{case['end']!r}")
    return Out(states=states, transitions=sum(len(s) for s in case["rows"]), traces=len(states))


# -------------------------------------------------------------------- cases

def batches(seqs, size):
    return [seqs[i : i + size] for i in range(0, len(seqs), size)]


def cases_parsivel(thorough):
    out = []
    for fmt in COLUMNS:
        # a row may be followed by a separator unless its last field is a spectrum of its own
        letters = ["good", "short", "half", "long", "empty", "time", (0, 1), "clock"] + (["separator"] if fmt in ("plain", "pyatlo", "pyatlo more") else []) + (["double", (2, 3)] if thorough else [])
        seqs = [s for n in range(1, 4) for s in itertools.product(letters, repeat=n)]
        if not thorough:
            seqs = [s for s in seqs if len(s) < 3 or "good" in s]
        out += [{"format": fmt, "rows": b, "end": "\n", "latin": False} for b in batches(seqs, 40)]
        # every field broken in every way, between two good rows
        n = len(spans(COLUMNS[fmt]))
        places = range(n) if thorough else [i for i in range(n) if i < 24 or i > n - 3 or i % 37 == 0]
        seqs = [("good", (i, how), "good") for i in places for how in range(len(NOT_NUMBERS)) if not (i == n - 1 and how == 0)]
        out += [{"format": fmt, "rows": b, "end": "\n", "latin": False} for b in batches(seqs, 40)]
        out += [{"format": fmt, "rows": [("good", "half", "good"), ("good",) * 3], "end": end, "latin": latin} for end in ("\n", "\r\n") for latin in (False, True)]
    return out


def cases_op4a(thorough):
    letters = ["good", "number", "colon", "time", "no end", "N short", "M short", "type", "other", 1, 9, 12, 90, 93]
    seqs = []
    for n in (1, 2, 3):
        for s in itertools.product(letters, repeat=n):
            if s[0] == "type":  # the file would be of another kind
                continue
            if n == 3 and not thorough and "good" not in s:
                continue
            if s.count("no end") > 1:
                continue
            seqs.append(s)
    return [{"rows": b, "end": end} for end in ("\n", "\r\n") for b in batches(seqs if end == "\n" else seqs[:200], 60)]


def cases_netcdf(thorough):
    out = []
    for fmt, names in NETCDF.items():
        for n in (1, 2, 3):
            for fill in (None, -99):
                spots = [()] + [((i, number),) for i in range(n) for number in names.values() if number not in (14, 15, 20) and not (fmt == "disdrodl" and number in EITHER)]
                if thorough:
                    spots += list(itertools.combinations([s[0] for s in spots[1:]], 2))[:: 3]
                for missing in spots:
                    for units in ("seconds since 1970-01-01", "hours since 2024-02-29"):
                        if units[0] == "h" and missing:
                            continue
                        out.append({"format": fmt, "n": n, "fill": fill, "missing": list(missing), "units": units})
    for name in NETCDF["disdrodl"]:
        if name != "fieldN":
            out.append({"format": "disdrodl", "n": 2, "fill": None, "missing": [], "units": "seconds since 1970-01-01", "without": [name]})
    return out


def cases_lpm(thorough):
    out = []
    for fmt in ("pyatlo", "lampedusa", "raw"):
        letters = ["good", "fill", "extended", "separator", "short", "long", "cut", "time", "date", "empty", "word", (60, 1)]
        seqs = [s for n in (1, 2, 3) for s in itertools.product(letters, repeat=n)]
        out += [{"format": fmt, "rows": b, "end": "\n"} for b in batches(seqs, 60)]
        seqs = [("good", (i, how), "good") for i in range(519) for how in range(len(NOT_NUMBERS)) if thorough or i < 50 or (how == 1 and (i % 7 == 0 or i > 510))]
        if thorough:
            seqs += [((i, 1), "fill", (i, 2), "good") for i in range(519)]
        out += [{"format": fmt, "rows": b, "end": "\n"} for b in batches(seqs, 60)]
        seqs = [s for c in LPM_CUT for s in ((c,), ("good", c, "good"), ("extended", c), (c, "extended", "good"))]
        out += [{"format": fmt, "rows": b, "end": "\n"} for b in batches(seqs, 60)]
        out.append({"format": fmt, "rows": [("good", "cut", "fill"), ("good",)], "end": "\r\n"})
    return out


def run(ctx):
    ctx.assume("telegrams of one text file have the same fields; a number cut short at the end of a file cannot be told from a whole one")
    ctx.explore("Parsivel text", run_parsivel, cases_parsivel(ctx.thorough), chunk=1, bound="6 formats x every sequence of 1-3 rows of 8-10 kinds; single fields broken in 4 ways; line ends and encodings")
    ctx.explore("Parsivel records", run_op4a, cases_op4a(ctx.thorough), chunk=1, bound="every sequence of 1-3 records of 14 kinds")
    ctx.explore("Parsivel netCDF", run_netcdf, cases_netcdf(ctx.thorough), bound="4 formats x 1-3 times x every single (pair of) missing value")
    ctx.explore("LPM", run_lpm, cases_lpm(ctx.thorough), chunk=1, bound="3 formats x every sequence of 1-3 rows of 12 kinds; single fields broken in 4 ways")

"""Behaviour-preserving edits: every check must stay quiet on them.

    python3 tools/refactor.py [-p C01,C02] [-j N] [-t] [ids...]     -t: run the test suite too
"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/openscm_twolayermodel/"
B, T, I, U = S + "base.py", S + "two_layer_model.py", S + "impulse_response_model.py", S + "utils.py"
ALL = ["C%02d" % i for i in range(1, 19)]
R = {}


def r(id, props, *edits):
    R[id] = (props.split(","), edits)


TLP = "C01,C02,C05,C08,C10,C11,C12,C16"
IRP = "C03,C04,C05,C08,C10,C11,C12,C16"
RS = "C03,C12,C13,C14,C15"

r("tl-run-range", TLP, (T, "        for _ in self.erf:\n            self.step()", "        for _ in range(len(self.erf)):\n            self.step()"))
r("tl-run-while", TLP, (T, "        for _ in self.erf:\n            self.step()", "        done = 0\n        while done < len(self.erf):\n            self.step()\n            done += 1"))
r("ir-run-size", IRP, (I, "        for _ in self.erf:\n            self.step()", "        n_steps = self.erf.size\n        for i in range(n_steps):\n            self.step()"))
r("ir-run-while-idx", IRP, (I, "        for _ in self.erf:\n            self.step()", "        n_steps = len(self.erf)\n        while n_steps and (np.isnan(self._timestep_idx) or self._timestep_idx < n_steps - 1):\n            self.step()"))
r("tl-run-enumerate", TLP, (T, "        for _ in self.erf:\n            self.step()", "        for i, _ in enumerate(self.erf):\n            self.step()"))
r("tl-run-inline", TLP, (T, "        for _ in self.erf:\n            self.step()", '''        upper, lower, rndt = self._temp_upper_mag, self._temp_lower_mag, self._rndt_mag
        for i in range(len(self._erf_mag)):
            self._timestep_idx = i
            if i == 0:
                upper[0] = lower[0] = rndt[0] = 0.0
                continue
            upper[i] = self._calculate_next_temp_upper(
                self._delta_t_mag, upper[i - 1], lower[i - 1], self._erf_mag[i - 1], self._lambda0_mag,
                self._a_mag, self._efficacy_mag, self._eta_mag, self._heat_capacity_upper_mag,
            )
            lower[i] = self._calculate_next_temp_lower(
                self._delta_t_mag, lower[i - 1], upper[i - 1], self._eta_mag, self._heat_capacity_lower_mag,
            )
            rndt[i] = self._calculate_next_rndt(
                self._delta_t_mag, lower[i], lower[i - 1], self._heat_capacity_lower_mag,
                upper[i], upper[i - 1], self._heat_capacity_upper_mag,
            )'''))
r("tl-run-carried", TLP, (T, "        for _ in self.erf:\n            self.step()", '''        upper = lower = 0.0
        for i, forcing in enumerate(self._erf_mag):
            self._timestep_idx = i
            self._temp_upper_mag[i] = upper
            self._temp_lower_mag[i] = lower
            if i == 0:
                self._rndt_mag[i] = 0.0
            else:
                self._rndt_mag[i] = self._calculate_next_rndt(
                    self._delta_t_mag, lower, self._temp_lower_mag[i - 1], self._heat_capacity_lower_mag,
                    upper, self._temp_upper_mag[i - 1], self._heat_capacity_upper_mag,
                )
            upper, lower = (
                self._calculate_next_temp_upper(
                    self._delta_t_mag, upper, lower, forcing, self._lambda0_mag,
                    self._a_mag, self._efficacy_mag, self._eta_mag, self._heat_capacity_upper_mag,
                ),
                self._calculate_next_temp_lower(self._delta_t_mag, lower, upper, self._eta_mag, self._heat_capacity_lower_mag),
            )'''))
r("tl-step-idx", TLP, (T, '''        if np.isnan(self._timestep_idx):
            self._timestep_idx = 0

        else:
            self._timestep_idx += 1

        if np.equal(self._timestep_idx, 0):
            self._temp_upper_mag[self._timestep_idx] = 0.0
            self._temp_lower_mag[self._timestep_idx] = 0.0
            self._rndt_mag[self._timestep_idx] = 0.0

        else:
''', '''        self._timestep_idx = 0 if np.isnan(self._timestep_idx) else self._timestep_idx + 1
        idx = self._timestep_idx

        if idx == 0:
            for store in (self._temp_upper_mag, self._temp_lower_mag, self._rndt_mag):
                store[idx] = 0.0

        else:
'''))
r("ir-step-helper", IRP, (I, '''        if np.isnan(self._timestep_idx):
            self._timestep_idx = 0

        else:
            self._timestep_idx += 1

        if np.equal(self._timestep_idx, 0):
            self._temp1_mag[self._timestep_idx] = 0.0
            self._temp2_mag[self._timestep_idx] = 0.0
            self._rndt_mag[self._timestep_idx] = 0.0

        else:
''', '''        self._advance()

        if np.equal(self._timestep_idx, 0):
            self._set_outputs(0.0, 0.0, 0.0)

        else:
'''), (I, '''    def _step(self):
''', '''    def _advance(self):
        if np.isnan(self._timestep_idx):
            self._timestep_idx = 0
            return
        self._timestep_idx = self._timestep_idx + 1

    def _set_outputs(self, temp1, temp2, rndt):
        idx = self._timestep_idx
        self._rndt_mag[idx], self._temp2_mag[idx], self._temp1_mag[idx] = rndt, temp2, temp1

    def _step(self):
'''))
r("tl-step-order", TLP, (T, '''            self._temp_upper_mag[self._timestep_idx] = self._calculate_next_temp_upper(
                self._delta_t_mag,
                self._temp_upper_mag[self._timestep_idx - 1],
                self._temp_lower_mag[self._timestep_idx - 1],
                self._erf_mag[self._timestep_idx - 1],
                self._lambda0_mag,
                self._a_mag,
                self._efficacy_mag,
                self._eta_mag,
                self._heat_capacity_upper_mag,
            )

            self._temp_lower_mag[self._timestep_idx] = self._calculate_next_temp_lower(
                self._delta_t_mag,
                self._temp_lower_mag[self._timestep_idx - 1],
                self._temp_upper_mag[self._timestep_idx - 1],
                self._eta_mag,
                self._heat_capacity_lower_mag,
            )
''', '''            prev = self._timestep_idx - 1
            t_upper, t_lower = self._temp_upper_mag[prev], self._temp_lower_mag[prev]
            self._temp_lower_mag[self._timestep_idx] = self._calculate_next_temp_lower(
                self._delta_t_mag, t_lower, t_upper, self._eta_mag, self._heat_capacity_lower_mag,
            )
            self._temp_upper_mag[self._timestep_idx] = self._calculate_next_temp_upper(
                self._delta_t_mag, t_upper, t_lower, self._erf_mag[prev], self._lambda0_mag,
                self._a_mag, self._efficacy_mag, self._eta_mag, self._heat_capacity_upper_mag,
            )
'''))
r("tl-temp-algebra", TLP, (T, '''        lambda_now = lambda0 - a * t_upper
        heat_exchange = efficacy * eta * (t_upper - t_lower)
        dT_dt = (erf - lambda_now * t_upper - heat_exchange) / heat_capacity_upper

        return t_upper + delta_t * dT_dt''', '''        feedback = lambda0 * t_upper - a * t_upper ** 2
        exchange = eta * (t_upper - t_lower) * efficacy
        flux = erf - feedback - exchange

        return t_upper + delta_t / heat_capacity_upper * flux'''))
r("tl-rndt-algebra", TLP, (T, '''        uptake_lower = heat_capacity_lower * (t_lower_now - t_lower_prev) / delta_t
        uptake_upper = heat_capacity_upper * (t_upper_now - t_upper_prev) / delta_t

        return uptake_upper + uptake_lower''', '''        change = sum(
            capacity * (now - prev)
            for capacity, now, prev in (
                (heat_capacity_upper, t_upper_now, t_upper_prev),
                (heat_capacity_lower, t_lower_now, t_lower_prev),
            )
        )

        return change / delta_t'''))
r("ir-temp-expm1", IRP, (I, '''        decay_factor = np.exp(-delta_t / d)
        rise = erf * q * (1 - np.exp(-delta_t / d))

        return t * decay_factor + rise''', '''        return t * np.exp(-delta_t / d) - erf * q * np.expm1(-delta_t / d)'''))
r("ir-temp-relax", IRP, (I, '''        decay_factor = np.exp(-delta_t / d)
        rise = erf * q * (1 - np.exp(-delta_t / d))

        return t * decay_factor + rise''', '''        decay = np.exp(-delta_t / d)
        equilibrium = q * erf

        return equilibrium + (t - equilibrium) * decay'''))
r("ir-temp-math", IRP, (I, '''        decay_factor = np.exp(-delta_t / d)
        rise = erf * q * (1 - np.exp(-delta_t / d))
''', '''        decay_factor = math.exp(-delta_t / d)
        rise = erf * q * (1.0 - decay_factor)
'''), (I, "import numpy as np\n", "import math\n\nimport numpy as np\n"))
r("reset-full", TLP, (T, '''        self._temp_upper_mag = np.zeros_like(self._erf_mag) * np.nan
        self._temp_lower_mag = np.zeros_like(self._erf_mag) * np.nan
        self._rndt_mag = np.zeros_like(self._erf_mag) * np.nan
''', '''        self._temp_upper_mag = np.full(len(self._erf_mag), np.nan)
        self._temp_lower_mag = np.full(self._erf_mag.shape, np.nan)
        self._rndt_mag = np.full(self._erf_mag.size, np.nan)
'''))
r("reset-empty-fill", IRP, (I, '''        self._temp1_mag = np.zeros_like(self._erf_mag) * np.nan
        self._temp2_mag = np.zeros_like(self._erf_mag) * np.nan
        self._rndt_mag = np.zeros_like(self._erf_mag) * np.nan
''', '''        for name in ("_temp1_mag", "_temp2_mag", "_rndt_mag"):
            blank = np.empty(self._erf_mag.shape)
            blank[:] = np.nan
            setattr(self, name, blank)
'''))
r("reset-ones", IRP, (I, '''        self._temp1_mag = np.zeros_like(self._erf_mag) * np.nan
        self._temp2_mag = np.zeros_like(self._erf_mag) * np.nan
        self._rndt_mag = np.zeros_like(self._erf_mag) * np.nan
''', '''        empty = np.nan * np.ones(self._erf_mag.shape)
        self._temp1_mag = empty.copy()
        self._temp2_mag = empty.copy()
        self._rndt_mag = empty
'''))
r("reset-nan-check", TLP, (T, '''        if np.isnan(self.erf).any():
            raise ModelStateError(
                "The model's drivers have not been set yet, call "
                ":meth:`self.set_drivers` first."
            )
''', '''        have_drivers = not np.any(np.isnan(self.erf))
        if not have_drivers:
            raise ModelStateError(
                "The model's drivers have not been set yet, call "
                ":meth:`self.set_drivers` first."
            )
'''))
r("reset-magnitude-check", IRP, (I, '''        if np.isnan(self.erf).any():
            raise''', '''        if np.isnan(getattr(self.erf, "magnitude", self.erf)).sum() > 0:
            raise'''))
r("reset-sum-check", IRP, (I, '''        if np.isnan(self.erf).any():
            raise''', '''        if np.isnan(np.sum(self.erf)):
            raise'''))
r("reset-count-check", "C01,C02,C11", (T, '''        if np.isnan(self.erf).any():
            raise''', '''        if np.count_nonzero(np.isnan(self.erf)):
            raise'''))
r("assert-order", "C08,C09,C10,C18", (B, '''        if not isinstance(quantity, pint.Quantity):
            raise TypeError("{} must be a pint.Quantity".format(name))

        try:
            quantity.to(model_units)
        except pint.errors.DimensionalityError as exc:
            raise UnitError("Wrong units for `{}`".format(name)) from exc
''', '''        if isinstance(quantity, pint.Quantity):
            try:
                quantity.to(model_units)
            except pint.errors.DimensionalityError as exc:
                raise UnitError("Wrong units for `{}`".format(name)) from exc
        else:
            raise TypeError("{} must be a pint.Quantity".format(name))
'''))
r("assert-check", "C08,C09,C10,C18", (B, '''        try:
            quantity.to(model_units)
        except pint.errors.DimensionalityError as exc:
            raise UnitError("Wrong units for `{}`".format(name)) from exc
''', '''        if not quantity.check(pint.Unit(model_units).dimensionality if False else quantity._REGISTRY(model_units).dimensionality):
            raise UnitError("Wrong units for `{}`".format(name))
'''))
r("setter-helper", "C01,C08,C09,C10,C18", (T, '''        self._assert_is_pint_quantity_with_units(val, "du", self._du_unit)
        self._du = val
        self._du_mag = val.to(self._du_unit).magnitude
        self._heat_capacity_upper_mag = self.heat_capacity_upper.to(
            self._heat_capacity_upper_unit
        ).magnitude
''', '''        self._store("du", val)
        self._heat_capacity_upper_mag = self.heat_capacity_upper.to(
            self._heat_capacity_upper_unit
        ).magnitude
'''), (T, '''        self._assert_is_pint_quantity_with_units(val, "dl", self._dl_unit)
        self._dl = val
        self._dl_mag = val.to(self._dl_unit).magnitude
''', '''        self._store("dl", val)
'''), (T, '''        self._assert_is_pint_quantity_with_units(val, "eta", self._eta_unit)
        self._eta = val
        self._eta_mag = val.to(self._eta_unit).magnitude
''', '''        self._store("eta", val)
'''), (T, '''    def _reset(self):
''', '''    def _store(self, name, val):
        unit = getattr(self, "_{}_unit".format(name))
        self._assert_is_pint_quantity_with_units(val, name, unit)
        setattr(self, "_" + name, val)
        setattr(self, "_{}_mag".format(name), val.to(unit).magnitude)

    def _reset(self):
'''))
r("setter-order", "C01,C08,C09,C10,C18", (T, '''        self._du = val
        self._du_mag = val.to(self._du_unit).magnitude
''', '''        self._du_mag = val.to(self._du_unit).magnitude
        self._du = val
'''), (B, '''        self._erf = val
        self._erf_mag = val.to(self._erf_unit).magnitude
''', '''        magnitude = val.to(self._erf_unit).magnitude
        self._erf, self._erf_mag = val, magnitude
'''))
r("init-loop", "C09,C10,C18", (T, '''        self.du = du
        self.dl = dl
        self.lambda0 = lambda0
        self.a = a
        self.efficacy = efficacy
        self.eta = eta
        self.delta_t = delta_t

        self._erf = np.zeros(1) * np.nan
        self._temp_upper_mag = np.zeros(1) * np.nan
        self._temp_lower_mag = np.zeros(1) * np.nan
        self._rndt_mag = np.zeros(1) * np.nan
        self._timestep_idx = np.nan
''', '''        given = dict(du=du, dl=dl, lambda0=lambda0, a=a, efficacy=efficacy, eta=eta)
        for key, value in given.items():
            setattr(self, key, value)
        self.delta_t = delta_t

        self._timestep_idx = np.nan
        self._erf = np.array([np.nan])
        self._temp_upper_mag = np.full(1, np.nan)
        self._temp_lower_mag = np.full(1, np.nan)
        self._rndt_mag = np.full(1, np.nan)
'''))
r("init-check-first", "C09,C10,C18", (I, '''        self.efficacy = efficacy
        self.delta_t = delta_t

        if d1 >= d2:
            raise ValueError("The short-timescale must be d1")
''', '''        if not self.d1 < self.d2:
            raise ValueError("The short-timescale must be d1")

        self.delta_t = delta_t
        self.efficacy = efficacy
'''))
r("set-drivers-ndim", "C11,C09,C10", (B, '''        if len(erf.shape) != 1:
            raise''', '''        one_dimensional = np.ndim(erf) == 1
        if not one_dimensional:
            raise'''))
r("set-drivers-helper", "C11,C09,C10", (B, '''        if len(erf.shape) != 1:
            raise AssertionError("erf must be one-dimensional")

        self.erf = erf
''', '''        self._check_one_dimensional(erf)
        self.erf = erf

    @staticmethod
    def _check_one_dimensional(values):
        n_dims = len(values.shape)
        if n_dims == 1:
            return
        raise AssertionError("erf must be one-dimensional")
'''))
r("rs-timestep-helper", RS, (B, '''        time_diff = driver["time"].diff().dropna()
        if not time_diff.empty and all(
            np.logical_and(
                time_diff <= np.timedelta64(31, "D"),
                time_diff >= np.timedelta64(28, "D"),
            )
        ):
''', '''        def looks_monthly(gaps):
            shortest, longest = np.timedelta64(28, "D"), np.timedelta64(31, "D")
            return len(gaps) > 0 and ((gaps >= shortest) & (gaps <= longest)).all()

        if looks_monthly(driver["time"].diff().dropna()):
'''))
r("rs-timestep-minmax", RS, (B, '''        if not time_diff.empty and all(
            np.logical_and(
                time_diff <= np.timedelta64(31, "D"),
                time_diff >= np.timedelta64(28, "D"),
            )
        ):
''', '''        if len(time_diff) and time_diff.max() <= np.timedelta64(31, "D") and time_diff.min() >= np.timedelta64(28, "D"):
'''))
r("rs-timestep-iloc", RS, (B, '''        time_diff = driver["time"].diff().dropna()
        if not''', '''        times = driver["time"]
        time_diff = times.diff().iloc[1:]
        if not'''), (B, '''        year_diff = driver["year"].diff().dropna()
        if (year_diff == 1).all():
''', '''        years = driver["year"]
        if (years.diff().iloc[1:] == 1).all():
'''))
r("rs-timestep-generator", RS, (B, '''        if not time_diff.empty and all(
            np.logical_and(
                time_diff <= np.timedelta64(31, "D"),
                time_diff >= np.timedelta64(28, "D"),
            )
        ):
''', '''        low, high = np.timedelta64(28, "D"), np.timedelta64(31, "D")
        if len(time_diff) > 0 and all(low <= gap <= high for gap in time_diff):
'''), (B, '''        if (year_diff == 1).all():
''', '''        if all(gap == 1 for gap in year_diff):
'''))
r("rs-timestep-days", RS, (B, '''        if not time_diff.empty and all(
            np.logical_and(
                time_diff <= np.timedelta64(31, "D"),
                time_diff >= np.timedelta64(28, "D"),
            )
        ):
''', '''        if not time_diff.empty and time_diff.between(
            np.timedelta64(28, "D"), np.timedelta64(31, "D")
        ).all():
'''))
r("rs-timestep-order", RS, (B, '''        year_diff = driver["year"].diff().dropna()
        if (year_diff == 1).all():
            # assume yearly timesteps
            return 1 * ur("yr")

        raise NotImplementedError(
            "Could not decide on timestep for time axis: {}".format(driver["time"])
        )
''', '''        year_diff = driver["year"].diff().dropna()
        if not (year_diff == 1).all():
            raise NotImplementedError(
                "Could not decide on timestep for time axis: {}".format(driver["time"])
            )

        # assume yearly timesteps
        return ur.Quantity(1, "yr")
'''))
r("rs-loop-helper", RS, (B, '''            meta = dict(zip(driver_ts.index.names, label))
            row_no_nan = row.dropna()

            self.set_drivers(row_no_nan.values * ur(meta["unit"]))
            self.reset()
            self.run()

            out_run_tss_base = row_no_nan.to_frame().T
            out_run_tss_base.index.names = driver_ts.index.names

            out_run_tss = [out_run_tss_base]
            out_run_tss += self._get_run_output_tss(out_run_tss[0])

            out_run = ScmRun(pd.concat(out_run_tss))
            out_run["run_idx"] = i

            run_store.append(out_run)
''', '''            run_store.append(self._run_single(i, label, row, driver_ts.index.names))
'''), (B, '''    @abstractmethod
    def _get_run_output_tss(self, ts_base):
''', '''    def _run_single(self, idx, label, row, names):
        unit = dict(zip(names, label))["unit"]
        values = row.dropna()

        self.set_drivers(values.values * ur(unit))
        self.reset()
        self.run()

        base = values.to_frame().T
        base.index.names = names

        out_run = ScmRun(pd.concat([base] + self._get_run_output_tss(base)))
        out_run["run_idx"] = idx

        return out_run

    @abstractmethod
    def _get_run_output_tss(self, ts_base):
'''))
r("rs-loop-counter", RS, (B, '''        for i, (label, row) in tqdman.tqdm(
            enumerate(driver_ts.iterrows()),
            desc="scenarios",
            leave=False,
            disable=not (progress),
        ):
''', '''        i = -1
        for label, row in tqdman.tqdm(
            driver_ts.iterrows(), desc="scenarios", leave=False, disable=not progress,
        ):
            i += 1
'''))
r("rs-loop-runidx", RS, (B, '''            out_run["run_idx"] = i
''', '''            out_run["run_idx"] = len(run_store)
'''))
r("rs-loop-unit", RS, (B, '''            meta = dict(zip(driver_ts.index.names, label))
            row_no_nan = row.dropna()

            self.set_drivers(row_no_nan.values * ur(meta["unit"]))
''', '''            row_no_nan = row[~row.isnull()]
            unit = label[list(driver_ts.index.names).index("unit")]

            self.set_drivers(ur.Quantity(row_no_nan.values, unit))
'''))
r("rs-extend", RS, (B, '''            out_run_tss = [out_run_tss_base]
            out_run_tss += self._get_run_output_tss(out_run_tss[0])

            out_run = ScmRun(pd.concat(out_run_tss))
''', '''            out_run_tss = list()
            out_run_tss.append(out_run_tss_base)
            out_run_tss.extend(self._get_run_output_tss(out_run_tss_base))

            out_run = ScmRun(pd.concat(out_run_tss, axis=0))
'''))
r("rs-save-paras", RS, (B, '''        save_paras_meta = {
            "{} ({})".format(k, getattr(self, k).units): getattr(self, k).magnitude
            for k in self._save_paras
        }
''', '''        save_paras_meta = {}
        for para in self._save_paras:
            value = getattr(self, para)
            save_paras_meta[f"{para} ({value.units})"] = value.magnitude
'''))
r("rs-save-paras-late", RS, (B, '''        save_paras_meta = {
            "{} ({})".format(k, getattr(self, k).units): getattr(self, k).magnitude
            for k in self._save_paras
        }

''', ""), (B, '''        for k, v in save_paras_meta.items():
            driver[k] = v
''', '''        for k in self._save_paras:
            quantity = getattr(self, k)
            driver["{} ({})".format(k, quantity.units)] = quantity.magnitude
'''))
r("rs-timestep-first", RS, (B, '''        driver["climate_model"] = self._name
        for k, v in save_paras_meta.items():
            driver[k] = v

        timestep = self._select_timestep(driver)
        self.delta_t = timestep
''', '''        self.delta_t = self._select_timestep(driver)

        for k, v in save_paras_meta.items():
            driver[k] = v
        driver["climate_model"] = self._name
'''))
r("rs-empty-check", RS, (B, '''        if np.equal(driver.shape[0], 0):
            raise''', '''        if not len(driver):
            raise'''))
r("rs-filter-twice", RS, (B, '''        driver = driver.filter(variable=driver_var, region="World")
''', '''        driver = driver.filter(region="World").filter(variable=driver_var)
'''))
r("rs-ordered", RS, (B, '''        def get_ordered_timeseries(in_ts):
            in_ts = in_ts.reorder_levels(idx)

            return in_ts

        out = ScmRun(
            pd.concat(
                [get_ordered_timeseries(r.timeseries()) for r in run_store], axis=0
            )
        )

        return out
''', '''        ordered = []
        for run in run_store:
            ordered.append(run.timeseries().reorder_levels(idx))

        return ScmRun(pd.concat(ordered))
'''))
r("rs-ordered-map", RS, (B, '''        out = ScmRun(
            pd.concat(
                [get_ordered_timeseries(r.timeseries()) for r in run_store], axis=0
            )
        )
''', '''        out = ScmRun(
            pd.concat(list(map(get_ordered_timeseries, (r.timeseries() for r in run_store))), axis=0)
        )
'''))
r("rs-iterloc", RS, (B, '''            enumerate(driver_ts.iterrows()),
''', '''            enumerate([(driver_ts.index[k], driver_ts.iloc[k]) for k in range(len(driver_ts))]),
'''))
r("rs-store-timeseries", RS, (B, '''            run_store.append(out_run)

        idx = run_store[0].meta.columns.tolist()
''', '''            run_store.append(out_run)

        idx = list(run_store[0].meta.columns)
'''))
r("rs-ensure", RS, (B, '''        if isinstance(scenarios, pd.DataFrame):
            # ScmRun re-indexes the data frames it is given in place
            driver = ScmRun(scenarios.copy())
        elif not isinstance(scenarios, ScmRun):
            driver = ScmRun(scenarios)
        else:
            driver = scenarios.copy()

        return driver
''', '''        if isinstance(scenarios, ScmRun):
            return scenarios.copy()
        if isinstance(scenarios, pd.DataFrame):
            scenarios = scenarios.copy(deep=True)

        return ScmRun(scenarios)
'''))
r("tl-outputs-loop", "C12,C13", (T, '''        out_run_tss = []

        out_run_tss.append(
            self._create_ts(
                base=ts_base,
                unit=self._temp_upper_unit,
                variable="Surface Temperature|Upper",
                values=self._temp_upper_mag,
            )
        )
        out_run_tss.append(
            self._create_ts(
                base=ts_base,
                unit=self._temp_lower_unit,
                variable="Surface Temperature|Lower",
                values=self._temp_lower_mag,
            )
        )
        out_run_tss.append(
            self._create_ts(
                base=ts_base,
                unit=self._rndt_unit,
                variable="Heat Uptake",
                values=self._rndt_mag,
            )
        )

        return out_run_tss
''', '''        outputs = (
            ("Surface Temperature|Upper", self._temp_upper_unit, self._temp_upper_mag),
            ("Surface Temperature|Lower", self._temp_lower_unit, self._temp_lower_mag),
            ("Heat Uptake", self._rndt_unit, self._rndt_mag),
        )

        return [
            self._create_ts(base=ts_base, unit=unit, variable=variable, values=values)
            for variable, unit, values in outputs
        ]
'''))
r("create-ts", "C12,C13", (B, '''        out = base.copy()
        out.index = out.index.set_levels([unit], "unit")
        out.index = out.index.set_levels([variable], "variable")
        out.iloc[:, :] = values

        return out
''', '''        out = base.copy()
        out.iloc[:, :] = values
        for level, new in (("variable", variable), ("unit", unit)):
            out.index = out.index.set_levels([new], level=level)

        return out
'''))
r("gh-algebra", "C04,C06,C07,C08", (B, '''    b_pt1 = (lambda0 + efficacy * eta) / (C)
    b_pt2 = (eta) / (C_D)
    b = b_pt1 + b_pt2
    b_star = b_pt1 - b_pt2
    delta = b ** 2 - (4 * lambda0 * eta) / (C * C_D)

    taucoeff = C * C_D / (2 * lambda0 * eta)
    tau1 = taucoeff * (b - delta ** 0.5)
    tau2 = taucoeff * (b + delta ** 0.5)

    phicoeff = C / (2 * efficacy * eta)
    phi1 = phicoeff * (b_star - delta ** 0.5)
    phi2 = phicoeff * (b_star + delta ** 0.5)
''', '''    upper_rate = (lambda0 + efficacy * eta) / C
    lower_rate = eta / C_D
    b = upper_rate + lower_rate
    b_star = upper_rate - lower_rate
    delta = b * b - 4 * (lambda0 / C) * (eta / C_D)
    root = np.sqrt(delta)

    taucoeff = (C / lambda0) * (C_D / eta) / 2
    tau1, tau2 = (taucoeff * (b + sign * root) for sign in (-1, 1))

    phicoeff = 0.5 * C / (efficacy * eta)
    phi1 = phicoeff * (b_star - root)
    phi2 = phicoeff * (b_star + root)
'''))
r("irp-algebra", "C04,C06,C07,C08", (T, '''        qdenom = gh["C"] * (gh["phi2"] - gh["phi1"])
        q1 = gh["tau1"] * gh["phi2"] / qdenom
        q2 = -gh["tau2"] * gh["phi1"] / qdenom
''', '''        q1 = gh["a1"] / self.lambda0
        q2 = gh["a2"] / self.lambda0
'''))
r("tlp-algebra", "C04,C06,C07,C08", (I, '''        lambda0 = 1 / (self.q1 + self.q2)
        C = (self.d1 * self.d2) / (self.q1 * self.d2 + self.q2 * self.d1)

        a1 = lambda0 * self.q1
        a2 = lambda0 * self.q2
''', '''        q_total = self.q1 + self.q2
        lambda0 = 1 / q_total
        C = 1 / (self.q1 / self.d1 + self.q2 / self.d2)

        a1 = self.q1 / q_total
        a2 = 1 - a1
'''))
r("ir-rndt-helper", IRP + ",C06,C07", (I, '''        two_layer_paras = self.get_two_layer_parameters()
        lambda0 = two_layer_paras["lambda0"]

        if np.equal(efficacy, 1):
            efficacy_term = 0 * ur(self._erf_unit)
        else:
            gh = _calculate_geoffroy_helper_parameters(
                two_layer_paras["du"],
                two_layer_paras["dl"],
                two_layer_paras["lambda0"],
                two_layer_paras["efficacy"],
                two_layer_paras["eta"],
            )

            t1_h = t1 * ur(self._temp1_unit)
            t2_h = t2 * ur(self._temp2_unit)
            efficacy_term = (
                two_layer_paras["eta"]
                * (efficacy - 1)
                * ((1 - gh["phi1"]) * t1_h + (1 - gh["phi2"]) * t2_h)
            )

        lambda0_mag = (lambda0 * ur(self._temp1_unit)).to(self._rndt_unit).magnitude
        efficacy_term_mag = efficacy_term.to(self._rndt_unit).magnitude

        out = erf - lambda0_mag * (t1 + t2) - efficacy_term_mag

        return out
''', '''        paras = self.get_two_layer_parameters()
        lambda0_mag = (paras["lambda0"] * ur(self._temp1_unit)).to(self._rndt_unit).magnitude
        out = erf - lambda0_mag * (t1 + t2)
        if efficacy == 1:
            return out

        return out - self._efficacy_term(paras, t1, t2, efficacy).to(self._rndt_unit).magnitude

    def _efficacy_term(self, paras, t1, t2, efficacy):
        gh = _calculate_geoffroy_helper_parameters(
            **{k: paras[k] for k in ("du", "dl", "lambda0", "efficacy", "eta")}
        )
        boxes = zip((gh["phi1"], gh["phi2"]), (t1, t2), (self._temp1_unit, self._temp2_unit))
        lag = sum((1 - phi) * (t * ur(unit)) for phi, t, unit in boxes)

        return paras["eta"] * (efficacy - 1) * lag
'''))
r("ir-rndt-always", IRP + ",C06,C07", (I, '''        if np.equal(efficacy, 1):
            efficacy_term = 0 * ur(self._erf_unit)
        else:
            gh''', '''        efficacy_term = 0 * ur(self._erf_unit)
        if not np.equal(efficacy, 1):
            gh'''))
r("ecs", "C17", (U, '''    if not isinstance(lambda_val, pint.Quantity):
        raise TypeError("lambda_val is not a pint.Quantity")

    if not isinstance(f2x, pint.Quantity):
        raise TypeError("f2x is not a pint.Quantity")

    return -f2x / lambda_val''', '''    for name, value in (("lambda_val", lambda_val), ("f2x", f2x)):
        if not isinstance(value, pint.Quantity):
            raise TypeError("{} is not a pint.Quantity".format(name))

    ecs = f2x / lambda_val

    return -ecs'''))
r("heat-capacity", "C01,C08,C10,C18", (T, "        return self.du * DENSITY_WATER * HEAT_CAPACITY_WATER", "        return DENSITY_WATER * HEAT_CAPACITY_WATER * self.du"))
r("heat-capacity-step", "C01,C02,C08,C10", (T, '''                self._eta_mag,
                self._heat_capacity_upper_mag,
            )
''', '''                self._eta_mag,
                self.heat_capacity_upper.to(self._heat_capacity_upper_unit).magnitude,
            )
'''))
r("delta-t-private", "C01,C08,C10,C15", (B, '''        self._delta_t = val
        self._delta_t_mag = val.to(self._delta_t_unit).magnitude
''', '''        self._delta_t = val
        converted = val.to(self._delta_t_unit)
        self._delta_t_mag = converted.magnitude
'''))
r("base-run-log", ",".join(ALL), (B, '''        """
        Run the model.
        """
        self._run()
''', '''        """
        Run the model.
        """
        LOGGER.debug("Running %s", self._name)
        self._run()
'''), (B, "# pylint: disable=invalid-name\n", "LOGGER = logging.getLogger(__name__)\n\n# pylint: disable=invalid-name\n"), (B, "from abc import ABC, abstractmethod\n", "import logging\nfrom abc import ABC, abstractmethod\n"))
r("noop", ",".join(ALL), (B, "        if len(erf.shape) != 1:\n", "        _ = None\n        if len(erf.shape) != 1:\n"), (B, "    C = du * HEAT", "    _ = None\n    C = du * HEAT"),
  (B, "        time_diff = driver", "        _ = None\n        time_diff = driver"), (B, "        out = base.copy()", "        _ = None\n        out = base.copy()"),
  (T, "        lambda_now =", "        _ = None\n        lambda_now ="), (T, "        if np.isnan(self._timestep_idx)", "        pass\n        if np.isnan(self._timestep_idx)"),
  (I, "        decay_factor =", "        _ = None\n        decay_factor ="), (I, "        two_layer_paras = self", "        assert True\n        two_layer_paras = self"))

import refactor2  # noqa: E402
refactor2.add(r, B, T, I, U, ALL, TLP, IRP, RS)


def prepare(d, edits):
    for f, o, n in edits:
        p = os.path.join(d, f)
        s = open(p).read()
        if o not in s:
            raise ValueError("edit does not match %s: %r" % (f, o[:60]))
        open(p, "w").write(s.replace(o, n, 1))


def one(job):
    i, props, tests = job
    d = tempfile.mkdtemp(prefix="refac_", dir="/tmp")
    out = []
    try:
        subprocess.check_call(["cp", "-a", "/repo", d + "/repo"])
        prepare(d + "/repo", R[i][1])
        if tests:
            base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
            open(d + "/t.sh", "w").write(open("/opt/vp/test.sh").read().replace("cd /repo", "cd %s/repo" % d))
            subprocess.run(["bash", d + "/t.sh", d + "/o.json"], capture_output=True, env=dict(os.environ, PYTHONPATH=d + "/repo/src"))
            j = json.load(open(d + "/o.json"))
            passed = set(j.get("passed") or [k for k, v in j.get("results", {}).items() if v == "passed"])
            miss = [x for x in base if x not in passed]
            out.append("%-22s tests %s" % (i, "pass" if not miss else "FAIL %s" % miss[:3]))
        os.makedirs(d + "/verif")
        for f in os.listdir(V):
            if f not in (".git", "seeded", "work", "evidence", "replays"):
                subprocess.check_call(["cp", "-a", os.path.join(V, f), d + "/verif/"])
        for p in props:
            x = subprocess.run(["/opt/venv/bin/python", "-W", "ignore", "check.py", p], cwd=d + "/verif", capture_output=True, text=True,
                               env=dict(os.environ, VERIF_REPO=d + "/repo", VERIF_SEED="1", VERIF_TIER="quick"))
            verdict = json.load(open(d + "/verif/evidence/%s.json" % p))["coverage"]["verdict"]
            out.append("%-22s %s %s exit %d %s  %s" % (i, "QUIET" if x.returncode == 0 else "ALARM", p, x.returncode, "proved" if verdict == "proved" else "bounded",
                                                    " | ".join(x.stdout.strip().splitlines())[:500] + x.stderr[-200:]))
    except Exception as e:
        out.append("%s: ERROR %s" % (i, e))
    shutil.rmtree(d, ignore_errors=True)
    return out


if __name__ == "__main__":
    args, props, j, ids, tests = sys.argv[1:], None, 3, [], False
    while args:
        x = args.pop(0)
        if x == "-p":
            props = args.pop(0).split(",")
        elif x == "-j":
            j = int(args.pop(0))
        elif x == "-t":
            tests = True
        else:
            ids.append(x)
    jobs = [(i, props or R[i][0], tests) for i in ids or R]
    with ThreadPoolExecutor(j) as ex:
        for lines in ex.map(one, jobs):
            for line in lines:
                print(line, flush=True)

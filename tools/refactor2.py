"""More behaviour-preserving edits (larger reorganisations); loaded by refactor.py."""


def add(r, B, T, I, U, ALL, TLP, IRP, RS):
    BOTH = "C01,C02,C03,C04,C05,C08,C10,C11,C12,C16"
    RUN = "    def _run(self):\n        for _ in self.erf:\n            self.step()\n\n"
    CHECK = '''        if np.isnan(self.erf).any():
            raise ModelStateError(
                "The model's drivers have not been set yet, call "
                ":meth:`self.set_drivers` first."
            )

'''
    r("move-run-base", BOTH, (T, RUN, ""), (I, RUN, ""), (B, "    @staticmethod\n    def _ensure_scenarios", RUN + "    @staticmethod\n    def _ensure_scenarios"))
    r("move-check-base", BOTH + ",C18", (T, CHECK, "        self._assert_drivers_set()\n"), (I, CHECK, "        self._assert_drivers_set()\n"),
      (T, "from .errors import ModelStateError\n", ""), (I, "from .errors import ModelStateError\n", ""),
      (B, "from .errors import UnitError", "from .errors import ModelStateError, UnitError"),
      (B, "    @staticmethod\n    def _ensure_scenarios", "    def _assert_drivers_set(self):\n        if not np.isnan(self.erf).any():\n            return\n\n" +
       CHECK.split("\n", 1)[1].replace("            raise", "        raise").replace("                ", "            ").replace("            )", "        )").rstrip() + "\n\n    @staticmethod\n    def _ensure_scenarios"))
    IDX = '''        if np.isnan(self._timestep_idx):
            self._timestep_idx = 0

        else:
            self._timestep_idx += 1

'''
    adv = '''    def _advance(self):
        first = np.isnan(self._timestep_idx)
        self._timestep_idx = 0 if first else self._timestep_idx + 1

        return self._timestep_idx

'''
    r("move-advance-base", BOTH, (T, IDX, "        idx = self._advance()\n\n"), (I, IDX, "        idx = self._advance()\n\n"),
      (T, "        if np.equal(self._timestep_idx, 0):", "        if idx == 0:"), (I, "        if np.equal(self._timestep_idx, 0):", "        if idx == 0:"),
      (B, "    @staticmethod\n    def _ensure_scenarios", adv + "    @staticmethod\n    def _ensure_scenarios"))
    r("tl-step-split", TLP, (T, '''        if np.equal(self._timestep_idx, 0):
            self._temp_upper_mag[self._timestep_idx] = 0.0
            self._temp_lower_mag[self._timestep_idx] = 0.0
            self._rndt_mag[self._timestep_idx] = 0.0

        else:
            self._temp_upper_mag''', '''        if self._timestep_idx == 0:
            for series in (self._temp_upper_mag, self._temp_lower_mag, self._rndt_mag):
                series[0] = 0.0

        else:
            self._temp_upper_mag'''))
    r("tl-step-early", TLP, (T, IDX + '''        if np.equal(self._timestep_idx, 0):
            self._temp_upper_mag[self._timestep_idx] = 0.0
            self._temp_lower_mag[self._timestep_idx] = 0.0
            self._rndt_mag[self._timestep_idx] = 0.0

        else:
            self._temp_upper_mag''', '''        if np.isnan(self._timestep_idx):
            self._timestep_idx = 0
            self._temp_upper_mag[0] = 0.0
            self._temp_lower_mag[0] = 0.0
            self._rndt_mag[0] = 0.0
            return

        self._timestep_idx += 1
        if True:
            self._temp_upper_mag'''))
    r("ir-step-locals", IRP, (I, '''            self._temp1_mag[self._timestep_idx] = self._calculate_next_temp(
                self._delta_t_mag,
                self._temp1_mag[self._timestep_idx - 1],
                self._q1_mag,
                self._d1_mag,
                self._erf_mag[self._timestep_idx - 1],
            )

            self._temp2_mag[self._timestep_idx] = self._calculate_next_temp(
                self._delta_t_mag,
                self._temp2_mag[self._timestep_idx - 1],
                self._q2_mag,
                self._d2_mag,
                self._erf_mag[self._timestep_idx - 1],
            )

            self._rndt_mag[self._timestep_idx] = self._calculate_next_rndt(
                self._temp1_mag[self._timestep_idx - 1],
                self._temp2_mag[self._timestep_idx - 1],
                self._erf_mag[self._timestep_idx - 1],
                self._efficacy_mag,
            )
''', '''            now, prev = self._timestep_idx, self._timestep_idx - 1
            erf_prev = self._erf_mag[prev]
            for temps, q, d in (
                (self._temp1_mag, self._q1_mag, self._d1_mag),
                (self._temp2_mag, self._q2_mag, self._d2_mag),
            ):
                temps[now] = self._calculate_next_temp(
                    self._delta_t_mag, temps[prev], q, d, erf_prev
                )

            self._rndt_mag[now] = self._calculate_next_rndt(
                self._temp1_mag[prev], self._temp2_mag[prev], erf_prev, self._efficacy_mag
            )
'''))
    r("ir-rndt-first", IRP, (I, '''            self._temp1_mag[self._timestep_idx] = self._calculate_next_temp(
                self._delta_t_mag,
                self._temp1_mag''', '''            self._rndt_mag[self._timestep_idx] = self._calculate_next_rndt(
                self._temp1_mag[self._timestep_idx - 1],
                self._temp2_mag[self._timestep_idx - 1],
                self._erf_mag[self._timestep_idx - 1],
                self._efficacy_mag,
            )
            self._temp1_mag[self._timestep_idx] = self._calculate_next_temp(
                self._delta_t_mag,
                self._temp1_mag'''), (I, '''                self._erf_mag[self._timestep_idx - 1],
            )

            self._rndt_mag[self._timestep_idx] = self._calculate_next_rndt(
                self._temp1_mag[self._timestep_idx - 1],
                self._temp2_mag[self._timestep_idx - 1],
                self._erf_mag[self._timestep_idx - 1],
                self._efficacy_mag,
            )
''', '''                self._erf_mag[self._timestep_idx - 1],
            )
'''))
    r("reset-setattr", TLP, (T, '''        self._temp_upper_mag = np.zeros_like(self._erf_mag) * np.nan
        self._temp_lower_mag = np.zeros_like(self._erf_mag) * np.nan
        self._rndt_mag = np.zeros_like(self._erf_mag) * np.nan
''', '''        for name in ("temp_upper", "temp_lower", "rndt"):
            setattr(self, "_{}_mag".format(name), np.zeros_like(self._erf_mag) * np.nan)
'''))
    r("reset-copy", IRP, (I, '''        self._temp1_mag = np.zeros_like(self._erf_mag) * np.nan
        self._temp2_mag = np.zeros_like(self._erf_mag) * np.nan
        self._rndt_mag = np.zeros_like(self._erf_mag) * np.nan

    def _run''', '''        missing = np.zeros_like(self._erf_mag) * np.nan
        self._temp1_mag = missing.copy()
        self._temp2_mag = missing.copy()
        self._rndt_mag = missing.copy()

    def _run'''))
    r("ir-rndt-return", IRP + ",C07", (I, '''        two_layer_paras = self.get_two_layer_parameters()
        lambda0 = two_layer_paras["lambda0"]

        if np.equal(efficacy, 1):
            efficacy_term = 0 * ur(self._erf_unit)
        else:
''', '''        two_layer_paras = self.get_two_layer_parameters()
        lambda0 = two_layer_paras["lambda0"]
        lambda0_mag = (lambda0 * ur(self._temp1_unit)).to(self._rndt_unit).magnitude
        flux = erf - lambda0_mag * (t1 + t2)

        if np.equal(efficacy, 1):
            return flux

        if True:
'''), (I, '''        lambda0_mag = (lambda0 * ur(self._temp1_unit)).to(self._rndt_unit).magnitude
        efficacy_term_mag = efficacy_term.to(self._rndt_unit).magnitude

        out = erf - lambda0_mag * (t1 + t2) - efficacy_term_mag

        return out
''', '''        return flux - efficacy_term.to(self._rndt_unit).magnitude
'''))
    r("init-run-state", ALL and "C01,C03,C10,C11,C18", (T, '''        self._erf = np.zeros(1) * np.nan
        self._temp_upper_mag = np.zeros(1) * np.nan
        self._temp_lower_mag = np.zeros(1) * np.nan
        self._rndt_mag = np.zeros(1) * np.nan
        self._timestep_idx = np.nan

''', '''        self._clear()

    def _clear(self):
        self._erf = np.full(1, np.nan)
        self._temp_upper_mag = np.full(1, np.nan)
        self._temp_lower_mag = np.full(1, np.nan)
        self._rndt_mag = np.full(1, np.nan)
        self._timestep_idx = np.nan

'''), (I, '''        if d1 >= d2:
            raise ValueError("The short-timescale must be d1")
''', '''        if self.d1 >= self.d2:
            raise ValueError(
                "The short-timescale must be d1, got d1={} and d2={}".format(d1, d2)
            )
'''))
    r("param-factory", "C03,C08,C09,C10,C18", (I, "class ImpulseResponseModel", '''def _parameter(name, doc):
    private, unit, mag = "_" + name, "_{}_unit".format(name), "_{}_mag".format(name)

    def getter(self):
        return getattr(self, private)

    def setter(self, val):
        units = getattr(self, unit)
        self._assert_is_pint_quantity_with_units(val, name, units)
        setattr(self, private, val)
        setattr(self, mag, val.to(units).magnitude)

    return property(getter, setter, doc=doc)


class ImpulseResponseModel'''), *[(I, '''    @property
    def %s(self):
        """
        :obj:`pint.Quantity`
            %s
        """
        return self._%s

    @%s.setter
    def %s(self, val):
        self._assert_is_pint_quantity_with_units(val, "%s", self._%s_unit)
        self._%s = val
        self._%s_mag = val.to(self._%s_unit).magnitude
''' % (n, d, n, n, n, n, n, n, n, n), '    %s = _parameter("%s", ":obj:`pint.Quantity` %s")\n' % (n, n, d)) for n, d in (
        ("d1", "Response timescale of first box"), ("d2", "Response timescale of second box"),
        ("q1", "Sensitivity of first box response to radiative forcing"), ("q2", "Sensitivity of second box response to radiative forcing"),
        ("efficacy", "Efficacy factor"))])
    r("du-setter-order", "C01,C08,C09,C10,C18", (T, '''        self._du = val
        self._du_mag = val.to(self._du_unit).magnitude
        self._heat_capacity_upper_mag = self.heat_capacity_upper.to(
            self._heat_capacity_upper_unit
        ).magnitude
''', '''        depth = val.to(self._du_unit)
        heat_capacity = depth * DENSITY_WATER * HEAT_CAPACITY_WATER
        self._heat_capacity_upper_mag = heat_capacity.to(
            self._heat_capacity_upper_unit
        ).magnitude
        self._du, self._du_mag = val, depth.magnitude
'''))
    r("volumetric", "C01,C06,C07,C08,C10,C18", (T, "# pylint: disable=invalid-name\n", "# pylint: disable=invalid-name\n\nVOLUMETRIC_HEAT_CAPACITY = DENSITY_WATER * HEAT_CAPACITY_WATER\n"),
      (T, "        return self.du * DENSITY_WATER * HEAT_CAPACITY_WATER", "        return self.du * VOLUMETRIC_HEAT_CAPACITY"),
      (T, "        return self.dl * DENSITY_WATER * HEAT_CAPACITY_WATER", "        return self.dl * VOLUMETRIC_HEAT_CAPACITY"),
      (B, "    C = du * HEAT_CAPACITY_WATER * DENSITY_WATER\n    C_D = dl * HEAT_CAPACITY_WATER * DENSITY_WATER\n",
       "    C, C_D = (depth * HEAT_CAPACITY_WATER * DENSITY_WATER for depth in (du, dl))\n"))
    r("gh-helpers", "C04,C06,C07,C08", (B, '''    taucoeff = C * C_D / (2 * lambda0 * eta)
    tau1 = taucoeff * (b - delta ** 0.5)
    tau2 = taucoeff * (b + delta ** 0.5)

    phicoeff = C / (2 * efficacy * eta)
    phi1 = phicoeff * (b_star - delta ** 0.5)
    phi2 = phicoeff * (b_star + delta ** 0.5)
''', '''    sqrt_delta = delta ** 0.5

    def roots(coeff, mid):
        return coeff * (mid - sqrt_delta), coeff * (mid + sqrt_delta)

    tau1, tau2 = roots(C * C_D / (2 * lambda0 * eta), b)
    phi1, phi2 = roots(C / (2 * efficacy * eta), b_star)
'''))
    r("gh-npsqrt", "C04,C06,C07,C08", (B, '''    tau1 = taucoeff * (b - delta ** 0.5)
    tau2 = taucoeff * (b + delta ** 0.5)
''', '''    tau1 = taucoeff * (b - np.sqrt(delta))
    tau2 = taucoeff * (b + np.sqrt(delta))
'''))
    r("tlp-dict", "C04,C07,C08", (I, '''        du = C / (DENSITY_WATER * HEAT_CAPACITY_WATER)
        dl = C_D / (DENSITY_WATER * HEAT_CAPACITY_WATER)

        out = {
            "lambda0": lambda0,
            "du": du,
            "dl": dl,
            "eta": eta,
            "efficacy": self.efficacy,
        }

        return out
''', '''        per_depth = DENSITY_WATER * HEAT_CAPACITY_WATER

        return dict(
            efficacy=self.efficacy,
            eta=eta,
            lambda0=lambda0,
            du=C / per_depth,
            dl=C_D / per_depth,
        )
'''))
    r("irp-loop", "C06,C07,C08", (T, '''        d1 = gh["tau1"]
        d2 = gh["tau2"]

        qdenom = gh["C"] * (gh["phi2"] - gh["phi1"])
        q1 = gh["tau1"] * gh["phi2"] / qdenom
        q2 = -gh["tau2"] * gh["phi1"] / qdenom

        out = {
            "d1": d1,
            "d2": d2,
            "q1": q1,
            "q2": q2,
            "efficacy": self.efficacy,
        }

        return out
''', '''        out = {"efficacy": self.efficacy}
        for box, other, sign in ((1, 2, 1), (2, 1, -1)):
            tau = gh["tau%d" % box]
            out["d%d" % box] = tau
            out["q%d" % box] = sign * tau * gh["phi%d" % other] / (gh["C"] * (gh["phi2"] - gh["phi1"]))

        return out
'''))
    r("irp-a-check", "C06,C07,C08", (T, '''        if not np.equal(self.a.magnitude, 0):
            raise ValueError(''', '''        if self._a_mag != 0:
            raise ValueError('''))
    LOOP = '''            meta = dict(zip(driver_ts.index.names, label))
            row_no_nan = row.dropna()

            self.set_drivers(row_no_nan.values * ur(meta["unit"]))
            self.reset()
            self.run()

            out_run_tss_base = row_no_nan.to_frame().T
            out_run_tss_base.index.names = driver_ts.index.names

            out_run_tss = [out_run_tss_base]
            out_run_tss += self._get_run_output_tss(out_run_tss[0])

            out_run = ScmRun(pd.concat(out_run_tss))
            out_run["run_idx"] = i

            run_store.append(out_run)
'''
    HEAD = '''        run_store = list()

        driver_ts = driver.timeseries()
        for i, (label, row) in tqdman.tqdm(
            enumerate(driver_ts.iterrows()),
            desc="scenarios",
            leave=False,
            disable=not (progress),
        ):
'''
    SINGLE = '''    def _run_scenario(self, i, names, label, row):
        meta = dict(zip(names, label))
        series = row.dropna()
        self.set_drivers(series.values * ur(meta["unit"]))
        self.reset()
        self.run()

        base = series.to_frame().T
        base.index.names = names
        out = ScmRun(pd.concat([base] + self._get_run_output_tss(base)))
        out["run_idx"] = i

        return out

    def run_scenarios('''
    r("rs-comprehension", RS, (B, HEAD + LOOP, '''        driver_ts = driver.timeseries()
        run_store = [
            self._run_scenario(i, driver_ts.index.names, label, row)
            for i, (label, row) in tqdman.tqdm(
                enumerate(driver_ts.iterrows()),
                desc="scenarios",
                leave=False,
                disable=not progress,
            )
        ]
'''), (B, "    def run_scenarios(", SINGLE))
    r("rs-enumerate-out", RS, (B, HEAD, '''        run_store = []

        driver_ts = driver.timeseries()
        rows = tqdman.tqdm(
            driver_ts.iterrows(),
            desc="scenarios",
            leave=False,
            disable=not progress,
        )
        for i, (label, row) in enumerate(rows):
'''))
    r("rs-meta-helper", RS, (B, '''        save_paras_meta = {
            "{} ({})".format(k, getattr(self, k).units): getattr(self, k).magnitude
            for k in self._save_paras
        }

''', ""), (B, '''        driver["climate_model"] = self._name
        for k, v in save_paras_meta.items():
            driver[k] = v

''', '''        self._add_metadata(driver)

'''), (B, "    def run_scenarios(", '''    def _add_metadata(self, driver):
        for name in self._save_paras:
            para = getattr(self, name)
            driver["{} ({})".format(name, para.units)] = para.magnitude

        driver["climate_model"] = self._name

    def run_scenarios('''))
    r("rs-select-helper", RS, (B, '''        driver = driver.filter(variable=driver_var, region="World")
        if np.equal(driver.shape[0], 0):
            raise ValueError(
                "No World data available for driver_var `{}`".format(driver_var)
            )

''', '''        driver = self._select_driver(driver, driver_var)

'''), (B, "    def run_scenarios(", '''    @staticmethod
    def _select_driver(scenarios, driver_var):
        world = scenarios.filter(region="World", variable=driver_var)
        if world.shape[0]:
            return world

        raise ValueError(
            "No World data available for driver_var `{}`".format(driver_var)
        )

    def run_scenarios('''))
    r("rs-inline-order", RS, (B, '''        def get_ordered_timeseries(in_ts):
            in_ts = in_ts.reorder_levels(idx)

            return in_ts

        out = ScmRun(
            pd.concat(
                [get_ordered_timeseries(r.timeseries()) for r in run_store], axis=0
            )
        )

        return out
''', '''        ordered = [run.timeseries().reorder_levels(idx) for run in run_store]

        return ScmRun(pd.concat(ordered, axis=0))
'''))
    r("rs-two-pass", RS, (B, '''            out_run = ScmRun(pd.concat(out_run_tss))
            out_run["run_idx"] = i

            run_store.append(out_run)
''', '''            run_store.append(ScmRun(pd.concat(out_run_tss)))
            run_store[-1]["run_idx"] = i
'''))
    r("rs-erf-local", RS, (B, '''            self.set_drivers(row_no_nan.values * ur(meta["unit"]))
''', '''            values, unit = row_no_nan.values, meta["unit"]
            erf = ur.Quantity(values, unit)
            self.set_drivers(erf)
'''))
    r("rs-timestep-private", RS, (B, '''        timestep = self._select_timestep(driver)
        self.delta_t = timestep
''', '''        self.delta_t = self._select_timestep(driver)
'''), (B, '''        time_diff = driver["time"].diff().dropna()
        if not time_diff.empty and all(
            np.logical_and(
                time_diff <= np.timedelta64(31, "D"),
                time_diff >= np.timedelta64(28, "D"),
            )
        ):
''', '''        time_diff = driver["time"].diff().dropna()
        shortest, longest = np.timedelta64(28, "D"), np.timedelta64(31, "D")
        monthly = ((time_diff >= shortest) & (time_diff <= longest)).all()
        if monthly and not time_diff.empty:
'''))
    r("rs-timestep-between", RS, (B, '''        if not time_diff.empty and all(
            np.logical_and(
                time_diff <= np.timedelta64(31, "D"),
                time_diff >= np.timedelta64(28, "D"),
            )
        ):
''', '''        if len(time_diff) > 0 and time_diff.between(
            pd.Timedelta(days=28), pd.Timedelta(days=31)
        ).all():
'''), (B, '''        if (year_diff == 1).all():
''', '''        if not (year_diff != 1).any():
'''))
    r("rs-timestep-fn", RS, (B, '''        time_diff = driver["time"].diff().dropna()
        if not time_diff.empty and all(
            np.logical_and(
                time_diff <= np.timedelta64(31, "D"),
                time_diff >= np.timedelta64(28, "D"),
            )
        ):
''', '''        def is_month(step):
            return np.timedelta64(28, "D") <= step <= np.timedelta64(31, "D")

        time_diff = driver["time"].diff().dropna()
        if not time_diff.empty and all(is_month(step) for step in time_diff):
'''))
    r("ensure-return", RS, (B, '''        if isinstance(scenarios, pd.DataFrame):
            # ScmRun re-indexes the data frames it is given in place
            driver = ScmRun(scenarios.copy())
        elif not isinstance(scenarios, ScmRun):
            driver = ScmRun(scenarios)
        else:
            driver = scenarios.copy()

        return driver
''', '''        if isinstance(scenarios, ScmRun):
            return scenarios.copy()

        # ScmRun re-indexes the data frames it is given in place
        own = scenarios.copy() if isinstance(scenarios, pd.DataFrame) else scenarios

        return ScmRun(own)
'''))
    r("outputs-table", RS, (I, '''        out_run_tss = []

        out_run_tss.append(
            self._create_ts(
                base=ts_base,
                unit=self._temp1_unit,
                variable="Surface Temperature|Box 1",
                values=self._temp1_mag,
            )
        )
        out_run_tss.append(
            self._create_ts(
                base=ts_base,
                unit=self._temp2_unit,
                variable="Surface Temperature|Box 2",
                values=self._temp2_mag,
            )
        )
        out_run_tss.append(
            self._create_ts(
                base=ts_base,
                unit=self._temp1_unit,
                variable="Surface Temperature",
                values=self._temp1_mag + self._temp2_mag,
            )
        )
        out_run_tss.append(
            self._create_ts(
                base=ts_base,
                unit=self._rndt_unit,
                variable="Heat Uptake",
                values=self._rndt_mag,
            )
        )

        return out_run_tss
''', '''        surface = "Surface Temperature"
        outputs = {
            surface + "|Box 1": (self._temp1_unit, self._temp1_mag),
            surface + "|Box 2": (self._temp2_unit, self._temp2_mag),
            surface: (self._temp1_unit, self._temp1_mag + self._temp2_mag),
            "Heat Uptake": (self._rndt_unit, self._rndt_mag),
        }

        return [
            self._create_ts(base=ts_base, unit=unit, variable=variable, values=values)
            for variable, (unit, values) in outputs.items()
        ]
'''))
    r("create-ts-both", RS, (B, '''        out.index = out.index.set_levels([unit], "unit")
        out.index = out.index.set_levels([variable], "variable")
        out.iloc[:, :] = values
''', '''        out.iloc[:, :] = values
        for level, value in (("variable", variable), ("unit", unit)):
            out.index = out.index.set_levels([value], level)
'''))
    r("set-drivers-return", BOTH + ",C09", (B, '''        if len(erf.shape) != 1:
            raise AssertionError("erf must be one-dimensional")

        self.erf = erf
''', '''        n_dimensions = len(erf.shape)
        if n_dimensions == 1:
            self.erf = erf
            return

        raise AssertionError(
            "erf must be one-dimensional, it has {} dimensions".format(n_dimensions)
        )
'''))
    r("ecs-algebra", "C17", (U, "    return -f2x / lambda_val", "    sensitivity = -1 / lambda_val\n\n    return f2x * sensitivity"))
    r("assert-compat", "C08,C09,C10,C18", (B, '''        if not isinstance(quantity, pint.Quantity):
            raise TypeError("{} must be a pint.Quantity".format(name))

        try:
            quantity.to(model_units)
        except pint.errors.DimensionalityError as exc:
            raise UnitError("Wrong units for `{}`".format(name)) from exc
''', '''        if not isinstance(quantity, pint.Quantity):
            raise TypeError("{} must be a pint.Quantity".format(name))

        if not quantity.is_compatible_with(model_units):
            raise UnitError("Wrong units for `{}`".format(name))
'''))
    r("tl-uptake-order", "C01,C02,C05,C08,C10,C12,C16", (T, '''        uptake_lower = heat_capacity_lower * (t_lower_now - t_lower_prev) / delta_t
        uptake_upper = heat_capacity_upper * (t_upper_now - t_upper_prev) / delta_t

        return uptake_upper + uptake_lower
''', '''        gains = [
            capacity * (now - before)
            for capacity, now, before in (
                (heat_capacity_upper, t_upper_now, t_upper_prev),
                (heat_capacity_lower, t_lower_now, t_lower_prev),
            )
        ]

        return sum(gains) / delta_t
'''))
    r("ir-temp-decay", IRP, (I, '''        decay_factor = np.exp(-delta_t / d)
        rise = erf * q * (1 - np.exp(-delta_t / d))

        return t * decay_factor + rise
''', '''        equilibrium = erf * q
        remaining = np.exp(-delta_t / d)

        return equilibrium + remaining * (t - equilibrium)
'''))
    MONTHLY = '''        if not time_diff.empty and all(
            np.logical_and(
                time_diff <= np.timedelta64(31, "D"),
                time_diff >= np.timedelta64(28, "D"),
            )
        ):
'''
    r("rs-timestep-seconds", "C15", (B, MONTHLY, '''        seconds = None if time_diff.empty else time_diff.dt.total_seconds()
        if seconds is not None and ((seconds >= 28 * 86400) & (seconds <= 31 * 86400)).all():
'''))
    r("rs-timestep-ratio", "C15", (B, MONTHLY, '''        days = time_diff / np.timedelta64(1, "D")
        if len(days) and days.ge(28).all() and days.le(31).all():
'''), (B, '''        if (year_diff == 1).all():
''', '''        if not abs(year_diff - 1).gt(0).any():
'''))
    r("rs-timestep-deviation", "C15", (B, MONTHLY, '''        half_range = np.timedelta64(36, "h")
        offset = np.abs(time_diff - np.timedelta64(59 * 12, "h"))
        if not time_diff.empty and (offset <= half_range).all():
'''))

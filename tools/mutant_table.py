"""(property, expected exit code, name, [(file, old, new)])"""
Y, U, HS = "symmetry.py", "unitary_representations.py", "hamiltonian_symmetry.py"
A, B, T = "tight_binding_asym.py", "bandstructure.py", "tight_binding.py"
L, K, HSY, SK, D = "linalg.py", "kpaths.py", "hamiltonian_symmetry.py", "slater_koster.py", "density_of_states.py"
MUTANTS = [
 ("P01", 1, "grad in place on caller k", [("tight_binding_asym.py", "        k = np.asarray(k)\n        r = self.neighbors[i]\n        return np.exp", "        k = np.asarray(k)\n        k *= 1.0\n        r = self.neighbors[i]\n        return np.exp")]),
 ("P03", 1, "memo mutated in place", [("bulk_properties.py", "        I = self.integrate_df_A(A, lambda _e, v, k: tau_1(v[:, None, :] * v[:, :, None], k), hessians=False, moments=max_a)", "        self.precompute()\n        I = self.integrate_df_A(A, lambda _e, v, k: tau_1(v[:, None, :] * v[:, :, None], k), hessians=False, moments=max_a)\n        for v in self.v:\n            v *= 2")]),
 ("P03", 1, "memo depends on query", [("smearing.py", "            basis[:,:,0] = normal\n", "            basis[:,:,0] = normal + value\n")]),
 ("P02", 1, "HFS copy shares", [("tight_binding_asym.py", "        self.H_r = np.array(H_r)", "        self.H_r = np.asarray(H_r)")]),
 # P04
 ("P04", 1, "print options set before validation", [("bandstructure.py", "        if format not in {\"python\", \"json\", \"wannier90\"}:", "        np.set_printoptions(precision=3)\n        if format not in {\"python\", \"json\", \"wannier90\"}:")]),
 ("P04", 1, "seterr leak in smearing", [("smearing.py", "def unit_tetra_cut_volume(", "np_old = None\ndef _q():\n    np.seterr(all='ignore')\n\ndef unit_tetra_cut_volume("), ("smearing.py", "np.sort((ax, ay, az), axis=0)", "(_q(), np.sort((ax, ay, az), axis=0))[1]")]),
 ("P04", 0, "errstate context", [("smearing.py", "    ax, ay, az = np.sort((ax, ay, az), axis=0)", "    with np.errstate(all='ignore'):\n        ax, ay, az = np.sort((ax, ay, az), axis=0)")]),
 ("P04", 0, "save through contextmanager helper", [("bandstructure.py", "class BandStructureModel", "import contextlib\n\n@contextlib.contextmanager\ndef _exact():\n    o = np.get_printoptions()\n    np.set_printoptions(precision=None)\n    try:\n        yield\n    finally:\n        np.set_printoptions(**o)\n\n\nclass BandStructureModel"), ("bandstructure.py", "            tb_fmt.save_hr(filename, self.neighbors, self.params_complex())", "            with _exact():\n                    tb_fmt.save_hr(filename, self.neighbors, self.params_complex())")]),
 ("P04", 1, "contextmanager helper without finally", [("bandstructure.py", "class BandStructureModel", "import contextlib\n\n@contextlib.contextmanager\ndef _exact():\n    o = np.get_printoptions()\n    np.set_printoptions(precision=None)\n    yield\n    np.set_printoptions(**o)\n\n\nclass BandStructureModel"), ("bandstructure.py", "    def randomize(", "    def params_text(self):\n        with _exact():\n            return repr(self.params)\n\n    def randomize("), ("bandstructure.py", "    def print_model_norms(self", "    def print_model_norms(self, *a, **k):\n        self.params_text()\n        return self._pmn(*a, **k)\n\n    def _pmn(self")]),
 ("P04", 1, "point table changed in place", [("kpaths.py", "            point = self.points[point][0].reshape(1, -1)", "            point = self.points[point][0].reshape(1, -1)\n            point *= 1.0")]),
 ("P04", 1, "seed in init_from_ref", [("bandstructure.py", "    def init_tight_binding_from_ref(", "    def init_tight_binding_from_ref(*a, **k):\n        np.random.seed(0)\n        return BandStructureModel._itb(*a, **k)\n\n    @staticmethod\n    def _itb(")]),
 ("P04", 0, "seed saved and restored", [("bandstructure.py", "    def init_tight_binding_from_ref(", "    def init_tight_binding_from_ref(*a, **k):\n        s = np.random.get_state()\n        np.random.seed(0)\n        try:\n            return BandStructureModel._itb(*a, **k)\n        finally:\n            np.random.set_state(s)\n\n    @staticmethod\n    def _itb(")]),
 ("P04", 1, "seed restored on success only", [("bandstructure.py", "    def init_tight_binding_from_ref(", "    def init_tight_binding_from_ref(*a, **k):\n        s = np.random.get_state()\n        np.random.seed(0)\n        r = BandStructureModel._itb(*a, **k)\n        np.random.set_state(s)\n        return r\n\n    @staticmethod\n    def _itb(")]),
 ("P04", 1, "rcParams", [("kpaths.py", "        from matplotlib import pyplot as plt\n", "        from matplotlib import pyplot as plt\n        plt.rcParams['font.size'] = 12\n")]),
 ("P04", 1, "antisym tensor scaled", [("bulk_properties.py", "        I = self.integrate_df_A(A, lambda _e, v, k: tau_1(v[:, None, :] * v[:, :, None], k), hessians=False, moments=max_a)", "        a = antisym_tensor\n        a *= 1\n        I = self.integrate_df_A(A, lambda _e, v, k: tau_1(v[:, None, :] * v[:, :, None], k), hessians=False, moments=max_a)")]),

 # P11
 ("P11", 1, "match instead of fullmatch", [("qespresso_interface.py", "re.fullmatch(r\"[a-zA-Z0-9_\\.\\-]+\", file)", "re.match(r\"[a-zA-Z0-9_\\.\\-]+\", file)")]),
 ("P11", 1, "whitelist admits semicolon range", [("qespresso_interface.py", "re.fullmatch(r\"[a-zA-Z0-9_\\.\\-]+\", file)", "re.fullmatch(r\"[a-zA-Z0-9_.-~]+\", file)")]),
 ("P11", 0, "anchored match", [("qespresso_interface.py", "re.fullmatch(r\"[a-zA-Z0-9_\\.\\-]+\", file)", "re.match(r\"^[a-zA-Z0-9_\\.\\-]+$\", file)")]),
 ("P11", 0, "whitelist helper", [("qespresso_interface.py", "def qe_prepare(", "def _harmless(text):\n    \"\"\"only letters\"\"\"\n    return re.fullmatch(r\"[\\w.-]+\", text) is not None\n\ndef qe_prepare("), ("qespresso_interface.py", "if re.fullmatch(r\"[a-zA-Z0-9_\\.\\-]+\", file) is None:", "if not _harmless(file):")]),
 ("P11", 0, "match object variable", [("qespresso_interface.py", "            if re.fullmatch(r\"[a-zA-Z0-9_\\.\\-]+\", file) is None:", "            ok = re.fullmatch(r\"[a-zA-Z0-9_\\.\\-]+\", file)\n            if not ok:")]),
 ("P11", 0, "character loop", [("qespresso_interface.py", "if re.fullmatch(r\"[a-zA-Z0-9_\\.\\-]+\", file) is None:", "if not all(c.isalnum() or c in \"._-\" for c in file):")]),
 ("P11", 1, "validation inverted for long names", [("qespresso_interface.py", "if re.fullmatch(r\"[a-zA-Z0-9_\\.\\-]+\", file) is None:", "if len(file) < 200 and re.fullmatch(r\"[a-zA-Z0-9_\\.\\-]+\", file) is None:")]),
 ("P11", 1, "validates the element name", [("qespresso_interface.py", "re.fullmatch(r\"[a-zA-Z0-9_\\.\\-]+\", file)", "re.fullmatch(r\"[a-zA-Z0-9_\\.\\-]+\", name)")]),
 ("P11", 1, "quote inside quotes", [("qespresso_interface.py", "f\"xcrysden --bxsf {shlex.quote(self.name)}_fs.bxsf > /dev/null\"", "f\"xcrysden --bxsf '{shlex.quote(self.name)}_fs.bxsf' > /dev/null\"")]),
 ("P11", 1, "unquoted tee", [("qespresso_interface.py", "| tee {shlex.quote(out_file)}", "| tee {out_file}")]),
 ("P11", 0, "argument list without shell", [("qespresso_interface.py", "os.system(f\"xcrysden --bxsf {shlex.quote(self.name)}_fs.bxsf > /dev/null\")", "subprocess.run([\"xcrysden\", \"--bxsf\", f\"{self.name}_fs.bxsf\"], stdout=subprocess.DEVNULL)")]),
 ("P11", 0, "quoted by concatenation", [("qespresso_interface.py", "os.system(f\"xcrysden --bxsf {shlex.quote(self.name)}_fs.bxsf > /dev/null\")", "cmd = [\"xcrysden\", \"--bxsf\", shlex.quote(self.name + \"_fs.bxsf\")]\n        os.system(\" \".join(cmd) + \" > %s\" % \"/dev/null\")")]),
 ("P11", 1, "sh -c", [("qespresso_interface.py", "os.system(f\"xcrysden --bxsf {shlex.quote(self.name)}_fs.bxsf > /dev/null\")", "subprocess.run([\"sh\", \"-c\", \"xcrysden --bxsf {}_fs.bxsf\".format(self.name)])")]),
]

# P17
S, D = "smearing.py", "density_of_states.py"
MUTANTS += [
 ("P17", 1, "dvolume of cubes drops a corner", [(S, "    area -= np.maximum(0, a3 - a0)**2\n    axyzn", "    axyzn")]),
 ("P17", 1, "dvolume of cubes misses the middle corner sign", [(S, "    area += np.maximum(0, -np.minimum(np.minimum(a1, a2), a3) - a0)**2\n    area -= np.maximum(0, a3", "    area -= np.maximum(0, -np.minimum(np.minimum(a1, a2), a3) - a0)**2\n    area -= np.maximum(0, a3")]),
 ("P17", 1, "combined density without norm", [(S, "area / (2 * axyz * norm)", "area / (2 * axyz)")]),
 ("P17", 1, "combined count cut at a tighter distance", [(S, "volume = np.where(a0 < 3**.5/2, volume / (6 * axyz), 0.0)", "volume = np.where(a0 < 2**.5/2, volume / (6 * axyz), 0.0)")]),
 ("P17", 1, "min of two corners only", [(S, "    v4 = np.maximum(0, -np.minimum(np.minimum(a1, a2), a3) - a0)", "    v4 = np.maximum(0, -np.minimum(a1, a2) - a0)")]),
 ("P17", 1, "tetra dual sign", [(S, "    dvolume -= np.maximum(0, -ax - a0)**2 / (ax * (ay - ax + 1e-50) * (az - ax + 1e-50))", "    dvolume -= np.maximum(0, -ax - a0)**2 / (ax * (ay - ax + 1e-50) * (az + ax + 1e-50))")]),
 ("P17", 1, "tetra density misses one tetrahedron", [(S, "    tetras += tetra_cut_dvolume(a[0], a[7], a[0b110], a[0b100])", "    tetras += tetra_cut_dvolume(a[0], a[7], a[0b110], a[0b101])")]),
 ("P17", 1, "sphere density coefficient", [(S, "(3/4 / r) / norm", "(3/4) / norm")]),
 ("P17", 1, "sphere clamp one sided", [(S, "    d = np.maximum(np.minimum(a0 / (norm * r), 1.0), -1.0)", "    d = np.minimum(a0 / (norm * r), 1.0)")]),
 ("P17", 1, "extra cubes average one cell twice", [(S, "res[1][::2,1::2,1::2] + res[1][1::2,::2,1::2] + res[1][1::2,1::2,::2]) / 8\n", "res[1][::2,1::2,1::2] + res[1][1::2,1::2,::2] + res[1][1::2,1::2,::2]) / 8\n")]),
 ("P17", 1, "convolution density keeps left flat part", [(D, "            s += df(x - energy_smpl[0]) * states[..., 0]", "            s -= df(x - energy_smpl[0]) * states[..., 0]")]),
 ("P17", 1, "convolution slope not divided", [(D, "        return y1 * df(x - x1) - y0 * df(x - x0) + (y1 - y0) / (x1 - x0) * f_diff(x - x0, x - x1)", "        return y1 * df(x - x1) - y0 * df(x - x0) + (y1 - y0) * f_diff(x - x0, x - x1)")]),
 ("P17", 1, "F loses beta", [(D, "return scipy.special.log_expit(beta * e) / beta", "return scipy.special.log_expit(beta * e)")]),
 ("P17", 1, "int_xdf sign", [(D, "return (x * ex) / (1 + ex) - np.log1p(ex)", "return (x * ex) / (1 + ex) + np.log1p(ex)")]),
 ("P17", 1, "int_xxdf without sign", [(D, "    return -sign * f", "    return -f")]),
 ("P17", 1, "full band counted twice in pair", [(D, "                states += 1.0  # completely full", "                states += 2.0  # completely full")]),
 ("P17", 1, "density of first band only", [(D, "                density += np.mean(dvolume)", "                density = np.mean(dvolume)")]),
 ("P17", 1, "band full only above its top", [(D, "        elif self.bands_range[i][1] <= energy:\n            return 1.0", "        elif self.bands_range[i][1] < energy:\n            return 1.0")]),
 ("P17", 1, "density sums instead of averaging", [(D, "return np.mean(self.smearing[i].dvolume(energy))", "return np.sum(self.smearing[i].dvolume(energy))")]),
 ("P17", 0, "corner helper", [(S, "def cube_cut_volume(", "def _corners(ax, ay, az):\n    return (-ax + ay + az) / 2, (ax - ay + az) / 2, (ax + ay - az) / 2\n\ndef cube_cut_volume("), (S, "    a1 = (-ax + ay + az) / 2\n    a2 = ( ax - ay + az) / 2\n    a3 = ( ax + ay - az) / 2\n    volume =", "    a1, a2, a3 = _corners(ax, ay, az)\n    volume =")]),
 ("P17", 0, "corner loop", [(S, "    area = np.maximum(0, ( ax + ay + az)/2 - a0)**2\n    area -= np.maximum(0, a1 - a0)**2\n    area -= np.maximum(0, a2 - a0)**2\n    area += np.maximum(0, -np.minimum(np.minimum(a1, a2), a3) - a0)**2\n    area -= np.maximum(0, a3 - a0)**2\n    axyzn", "    inner = -np.minimum(np.minimum(a1, a2), a3)\n    area = np.maximum(0, 0.5 * (ax + ay + az) - a0)**2 + np.maximum(0, inner - a0)**2\n    for c in (a1, a2, a3):\n        area = area - np.clip(c - a0, 0, None)**2\n    axyzn")]),
 ("P17", 0, "density from the pair", [(S, "        return cube_cut_dvolume(value - self.cubes[0], *self.cubes[1:5])\n    \n    def volume_dvolume(self, value: float):\n        volume, dvolume", "        return self.volume_dvolume(value)[1]\n    \n    def volume_dvolume(self, value: float):\n        volume, dvolume")]),
 ("P17", 0, "pair from the parts", [(S, "        volume, dvolume = cube_cut_volume_dvolume(value - self.cubes[0], *self.cubes[1:5])\n        return volume, dvolume\n\n    def samples", "        x = value - self.cubes[0]\n        return cube_cut_volume(x, *self.cubes[1:5]), cube_cut_dvolume(x, *self.cubes[1:5])\n\n    def samples")]),
 ("P17", 0, "tetra loop", [(S, "    tetras  = tetra_cut_dvolume(a[0], a[7], a[0b001], a[0b011])\n    tetras += tetra_cut_dvolume(a[0], a[7], a[0b011], a[0b010])\n    tetras += tetra_cut_dvolume(a[0], a[7], a[0b010], a[0b110])\n    tetras += tetra_cut_dvolume(a[0], a[7], a[0b110], a[0b100])\n    tetras += tetra_cut_dvolume(a[0], a[7], a[0b100], a[0b101])\n    tetras += tetra_cut_dvolume(a[0], a[7], a[0b101], a[0b001])\n    return tetras", "    ring = [0b001, 0b011, 0b010, 0b110, 0b100, 0b101]\n    return sum(tetra_cut_dvolume(a[0], a[7], a[i], a[j]) for i, j in zip(ring, ring[1:] + ring[:1]))")]),
 ("P17", 0, "cosh spelled with f", [(D, "        return -0.25 * beta / np.cosh(0.5 * beta * e)**2  #", "        g = scipy.special.expit(-beta * e)\n        return -beta * g * (1 - g)  #")]),
 ("P17", 0, "log1p spelling", [(D, "return scipy.special.log_expit(beta * e) / beta", "return -np.log1p(np.exp(-beta * e)) / beta")]),
 ("P17", 0, "states_below as generator", [(D, "        states = 0.0\n        for i in range(len(self.bands_range)):\n            states += self.states_below_band(energy, i)\n        return states", "        return sum(self.states_below_band(energy, i) for i in range(len(self.bands_range)))")]),
 ("P17", 0, "states_below skips early", [(D, "        if self.bands_range[i][0] < energy < self.bands_range[i][1]:\n            return np.mean(self.smearing[i].volume(energy))\n        elif self.bands_range[i][1] <= energy:\n            return 1.0  # completely full\n        else:\n            return 0.0", "        low, high = self.bands_range[i]\n        if energy <= low:\n            return 0.0\n        if energy >= high:\n            return 1.0\n        return self.smearing[i].volume(energy).mean()")]),
 ("P17", 0, "cubes", [(S, "volume = dp*dp * (2 - d) * (1/4)", "volume = 0.25 * (2 + 3 * d - d**3)")]),
 ("P17", 0, "int poly sum", [(D, "    return a * (_int_xxdf(x1) - _int_xxdf(x0)) + b * (_int_xdf(x1) - _int_xdf(x0)) + c * (_int_df(x1) - _int_df(x0))", "    res = 0\n    for w, F in ((a, _int_xxdf), (b, _int_xdf), (c, _int_df)):\n        res = res + w * (F(x1) - F(x0))\n    return res")]),
 ("P17", 0, "mask assignment", [(S, "    volume = np.where(a0 < 3**.5/2, np.minimum(1.0, volume / (6 * ax * ay * az)), 0.0)\n    return np.where(a0_sign, volume, 1.0 - volume)", "    volume = np.minimum(1.0, volume / (6 * ax * ay * az))\n    volume[a0 >= 3**.5/2] = 0.0\n    volume[~a0_sign] = 1.0 - volume[~a0_sign]\n    return volume")]),
 ("P17", 0, "vertices by loops", [(S, "            a = [values, np.roll(values, -1, axis=0)]\n            a.extend([np.roll(vertex, -1, axis=1) for vertex in a])\n            a.extend([np.roll(vertex, -1, axis=2) for vertex in a])\n            a0 = (a[0] + a[1] + a[2] + a[3] + a[4] + a[5] + a[6] + a[7]) / 8", "            a = [values]\n            for axis in range(3):\n                a = a + [np.roll(v, -1, axis=axis) for v in a]\n            a0 = sum(a) / len(a)")]),

 # P06
 ("P06", 1, "gradient misses scale", [(B, "        return res * scale\n", "        return res\n")]),
 ("P06", 1, "hessian of cos uses sin", [(B, "coeff_neg_ddfuncs = [np.cos, np.sin]", "coeff_neg_ddfuncs = [np.cos, np.cos]")]),
 ("P06", 1, "hessian of reduced exp", [(B, "coeff_neg_ddfuncs = [lambda x: np.exp(1j * x)]", "coeff_neg_ddfuncs = [coeff_funcs[0]]")]),
 ("P06", 1, "hessian dyad with unrotated neighbour", [(B, ")[..., None, None] * np.tensordot(r, r, axes=0)", ")[..., None, None] * np.tensordot(r_orig, r, axes=0)")]),
 ("P06", 1, "gradient of the constant term", [(B, "        res = np.zeros_like(k)\n        if i == 0:\n            return res\n", "        res = np.zeros_like(k)\n        if i == 0:\n            return np.ones_like(k)\n")]),
 ("P06", 1, "TB hessian sign of odd part", [(T, "            s -= np.sin(t)[...,None,None] * r_sqr", "            s += np.sin(t)[...,None,None] * r_sqr")]),
 ("P06", 1, "HFS hessian without second i", [(A, "return (2j*np.pi)**2 * np.exp", "return 1j*(2*np.pi)**2 * np.exp")]),
 ("P06", 1, "HFS gradient shares neighbour of i-1", [(A, "        r = self.neighbors[i]\n        return 2j*np.pi * np.exp", "        r = self.neighbors[max(1, i - 1)]\n        return 2j*np.pi * np.exp")]),
 ("P06", 1, "TB parts share one array", [(T, "        c = d\n        s = d.copy()\n        scale = 2*np.pi\n        part = i // len(self.neighbors)\n        r_orig = self.neighbors[i % len(self.neighbors) + part]\n        #for sym in self.sym.S:\n        #    r = sym @ r_orig\n        if True:\n            r = r_orig\n            t = scale * (k @ r)\n            c -= scale", "        c = d\n        s = d\n        scale = 2*np.pi\n        part = i // len(self.neighbors)\n        r_orig = self.neighbors[i % len(self.neighbors) + part]\n        #for sym in self.sym.S:\n        #    r = sym @ r_orig\n        if True:\n            r = r_orig\n            t = scale * (k @ r)\n            c -= scale")]),
 ("P06", 0, "outer product", [(B, "np.tensordot(r, r, axes=0)", "np.outer(r, r)")]),
 ("P06", 0, "einsum hessian", [(A, "        r_sqr = np.asarray(r)[:, None] * np.asarray(r)[None, :]\n        return (2j*np.pi)**2 * np.exp(2j*np.pi*(k @ r))[..., None, None] * r_sqr", "        return -4 * np.pi**2 * np.einsum('...,i,j->...ij', np.exp(2j*np.pi*(k @ r)), r, r)")]),
 ("P06", 0, "cis spelled out", [(A, "        return np.exp(2j*np.pi*(k @ r))\n", "        t = 2 * np.pi * np.dot(k, r)\n        return np.cos(t) + 1j * np.sin(t)\n")]),
 ("P06", 0, "gradient by coefficient dictionary", [(B, "    def df_i_sym(k, i):\n        assert i >= 0\n        k = np.asanyarray(k)\n        res = np.zeros_like(k)\n        if i == 0:\n            return res\n        part = i // len(neighbors)\n        r_orig = neighbors[i % len(neighbors) + part]\n        func = coeff_dfuncs[part]\n        for s in sym.S:\n            r = s @ r_orig\n            res = res + func(scale * (k @ r))[..., None] * r\n        return res * scale", "    def df_i_sym(k, i):\n        assert i >= 0\n        k = np.asanyarray(k)\n        if i == 0:\n            return np.zeros_like(k)\n        part, n = divmod(i, len(neighbors))\n        rs = sym.S @ neighbors[n + part]\n        func = coeff_dfuncs[part]\n        return sum(scale * func(scale * np.tensordot(k, r, axes=1))[..., np.newaxis] * r for r in rs)")]),
 ("P06", 0, "closure shared factory", [(B, "        for s in sym.S:\n            r = s @ r_orig\n            res = res + func(scale * (k @ r))\n        return res", "        rs = np.einsum('nij,j->ni', sym.S, r_orig)\n        return np.sum(func(scale * (k @ rs.T)), axis=-1)")]),
 ("P06", 0, "df loop with einsum", [(A, "            mat += self.df_i(k, i)[..., None, None] * self.H_r[i].reshape(H_r_shape)\n", "            mat += np.einsum('...,ij->...ij', self.df_i(k, i), self.H_r[i])\n")]),
 # P05
 ("P05", 1, "no conjugate in df", [(B, "            mat += np.asarray(self.df_i(k, i))[..., None, None] * self.params[i].reshape(params_shape)\n        mat += np.conj(np.swapaxes(mat, -1, -2))", "            mat += np.asarray(self.df_i(k, i))[..., None, None] * self.params[i].reshape(params_shape)\n        mat += np.swapaxes(mat, -1, -2)")]),
 ("P05", 1, "zeroth before the conjugate", [(A, "        for i in range(1, len(self.H_r)):\n            mat += self.ddf_i", "        for i in range(2, len(self.H_r)):\n            mat += self.ddf_i"), (A, "        mat += self.ddf_i(k, 0)[..., None, None] * self.H_r[0].reshape(H_r_shape)\n", "        for i in (0, 1):\n            mat += self.ddf_i(k, i)[..., None, None] * self.H_r[i].reshape(H_r_shape)\n")]),
 ("P05", 1, "swaps derivative axis", [(A, "            mat += self.df_i(k, i)[..., None, None] * self.H_r[i].reshape(H_r_shape)\n        mat += np.conj(np.swapaxes(mat, -1, -2))", "            mat += self.df_i(k, i)[..., None, None] * self.H_r[i].reshape(H_r_shape)\n        mat += np.conj(np.swapaxes(mat, -1, -3))")]),
 ("P05", 1, "normalize keeps antihermitian part", [(B, "always hermitian\n        self.params[0] += np.conj(self.params[0].T)", "always hermitian\n        self.params[0] += self.params[0].T")]),
 ("P05", 1, "asym normalize S zeroth", [(A, "        self.S.H_r[0] = (self.S.H_r[0] + self.S.H_r[0].T.conj()) / 2\n", "")]),
 ("P05", 1, "sign without conjugate in normalize", [(B, "                    self.params[:, i, :] *= np.conj(sign)\n", "                    self.params[:, i, :] *= sign\n")]),
 ("P05", 0, "dagger helper", [(A, "class HermitianFourierSeries:", "def _dagger(x):\n    return x.swapaxes(-1, -2).conj()\n\n\nclass HermitianFourierSeries:"), (A, "        mat += np.conj(np.swapaxes(mat, -1, -2))\n        # expect", "        mat = mat + _dagger(mat)\n        # expect")]),
 ("P05", 0, "moveaxis", [(B, "            mat += np.asarray(self.f_i(k, i))[..., None, None] * self.params[i].reshape(params_shape)\n        mat += np.conj(np.swapaxes(mat, -1, -2))", "            mat += np.asarray(self.f_i(k, i))[..., None, None] * self.params[i].reshape(params_shape)\n        mat += np.moveaxis(mat, -1, -2).conjugate()")]),
 ("P05", 0, "tensordot sum", [(A, "        for i in range(1, len(self.H_r)):\n            mat += self.f_i(k, i)[..., None, None] * self.H_r[i].reshape(H_r_shape)\n", "        if len(self.H_r) > 1:\n            c = np.stack([self.f_i(k, i) for i in range(1, len(self.H_r))], axis=-1)\n            mat += np.tensordot(c, self.H_r[1:], axes=(-1, 0))\n")]),
 # P07
 ("P07", 1, "phase skips the zeroth matrix", [(B, "                self.params[:, :, i] *= sign\n", "                self.params[1:, :, i] *= sign\n"), (B, "                self.params[:, i, :] *= np.conj(sign)\n", "                self.params[1:, i, :] *= np.conj(sign)\n")]),
 ("P07", 1, "rotation transposed without conjugate", [(B, "            self.params[i] = np.conj(ev.T) @ self.params[i] @ ev", "            self.params[i] = ev.T @ self.params[i] @ ev")]),
 ("P07", 1, "asym S rotated with the other matrix", [(A, "        self.S.H_r = np.einsum(\"ji,njk,kl->nil\", np.conj(ev), self.S.H_r, ev)\n", "        self.S.H_r = np.einsum(\"ji,njk,kl->nil\", np.conj(ev), self.S.H_r, np.conj(ev))\n")]),
 ("P07", 1, "asym S not orthonormalised with H", [(A, "        self.S.H_r = np.einsum(\"ji,njk,kl->nil\", np.conj(L), self.S.H_r, L)\n", "        self.S.H_r[:1] = np.einsum(\"ji,njk,kl->nil\", np.conj(L), self.S.H_r[:1], L)\n")]),
 ("P07", 1, "permute columns by the inverse", [(A, "            self.H.H_r[i] = self.H.H_r[i][:, order]", "            self.H.H_r[i] = self.H.H_r[i][:, np.argsort(order)]")]),
 ("P07", 1, "permute forgets the last overlap", [(A, "        for i in range(len(self.S.H_r)):\n            self.S.H_r[i] = self.S.H_r[i][order]", "        for i in range(len(self.S.H_r) - 1):\n            self.S.H_r[i] = self.S.H_r[i][order]")]),
 ("P07", 1, "phase not normalised", [(B, "                sign = np.conj(x) / a\n", "                sign = np.conj(x)\n")]),
 ("P07", 0, "einsum rotation", [(B, "        for i in range(len(self.params)):\n            self.params[i] = np.conj(ev.T) @ self.params[i] @ ev\n", "        self.params = np.einsum('ba,nbc,cd->nad', ev.conj(), self.params, ev)\n")]),
 ("P07", 0, "batched matmul", [(A, "        self.S.H_r = np.einsum(\"ji,njk,kl->nil\", np.conj(ev), self.S.H_r, ev)\n", "        self.S.H_r = ev.conj().T @ self.S.H_r @ ev\n")]),
 ("P07", 0, "ix_ permute", [(B, "            self.params[i] = self.params[i][order]\n            self.params[i] = self.params[i][:, order]\n", "            self.params[i] = self.params[i][np.ix_(order, order)]\n")]),
 ("P07", 0, "whole array permute", [(A, "        for i in range(len(self.S.H_r)):\n            self.S.H_r[i] = self.S.H_r[i][order]\n            self.S.H_r[i] = self.S.H_r[i][:, order]\n", "        self.S.H_r = np.take(np.take(self.S.H_r, order, axis=1), order, axis=2)\n")]),
 ("P07", 0, "phase through unit vector helper", [(B, "                sign = np.conj(x) / a\n", "                sign = (x / a).conjugate()\n")]),
]
MUTANTS += [
 # P14
 ("P14", 1, "even permutations with a sign slip", [(Y, "             ((0, -1, 0), (-1, 0, 0), (0, 0, -1)),", "             ((0, -1, 0), (-1, 0, 0), (0, 0, 1)),")]),
 ("P14", 1, "mirror_xy keeps y", [(Y, "        S[1][0, 0] = -1\n        S[1][1, 1] = -1\n", "        S[1][0, 0] = -1\n        S[1][-1, -1] = -1\n")]),
 ("P14", 1, "generator stops one round early", [(Y, "            if len(S) <= prev_len:\n                break\n        return Symmetry(np.array(S), inversion)", "            if len(S) <= prev_len or len(S) >= 12:\n                break\n        return Symmetry(np.array(S), inversion)")]),
 ("P14", 1, "even dimension realises inversion without resetting", [(Y, "            self.S = np.concatenate([self.S, -self.S], axis=0)\n            self.inversion = False\n", "            self.S = np.concatenate([self.S, -self.S], axis=0)\n")]),
 ("P14", 1, "-1 never split off", [(Y, "                self.S = np.array([s for s in self.S if np.linalg.det(s) > 0])", "                self.S = np.array([s for s in self.S if np.linalg.det(s) > -2])")]),
 ("P14", 1, "operations forget inversion", [(Y, "            S = S + list(-self.S)", "            S = S + list(self.S)")]),
 ("P14", 1, "dual without transposition", [(Y, "        S = np.swapaxes(self.S, -1, -2)\n        S = np.linalg.inv(S)\n", "        S = np.linalg.inv(self.S)\n")]),
 ("P14", 0, "dual of a finite group by the transpose alone", [(Y, "        S = np.linalg.inv(S)\n", "")]),
 ("P14", 1, "transform by the transpose", [(Y, "        S = np.einsum(\"nij,mi,jk->nmk\", self.S,", "        S = np.einsum(\"nij,im,jk->nmk\", self.S,")]),
 ("P14", 1, "transform loses inversion", [(Y, "        return Symmetry(S, self.inversion, self.projective)\n\n    @staticmethod\n    def from_generator", "        return Symmetry(S, self.projective, self.projective)\n\n    @staticmethod\n    def from_generator")]),
 ("P14", 1, "representation generator drops the matrices of repeated elements", [(U, "                    S[s_key] = (s_key, u)", "                    S[s_key] = (s_key, U_new[0])")]),
 ("P14", 1, "match_sym by the inverse order", [(U, "        self.U = np.array(self.U[order])\n", "        self.U = np.array(self.U[np.argsort(order)])\n")]),
 ("P14", 1, "sum does not reorder", [(U, "        rhs = rhs.copy()\n        rhs.match_sym(self.sym)\n        u_repr", "        rhs = rhs.copy()\n        u_repr")]),
 ("P14", 1, "sum puts the odd part first", [(U, "            for i, (u1, u2) in enumerate(zip(self.U, rhs.U)):\n                u_repr.U[i] = direct_sum(u2, u1)\n        elif self.inv_split", "            for i, (u1, u2) in enumerate(zip(self.U, rhs.U)):\n                u_repr.U[i] = direct_sum(u1, u2)\n        elif self.inv_split")]),
 ("P14", 1, "product not matched", [(U, "            res.match_sym(self.sym) # match to self symmetry, like in __add__\n", "")]),
 ("P14", 1, "copies keep the split", [(U, "            res.inv_split *= rhs\n", "")]),
 ("P14", 1, "permute rows only", [(U, "            self.U[i] = self.U[i][:, order]\n", "")]),
 ("P14", 1, "o3r flips the face rotations", [(U, "        u_repr.U *= np.where((np.abs(np.einsum(\"nii->n\", u_repr.U)) == 1) & (np.prod(np.einsum(\"nii->ni\", u_repr.U), axis=-1) == 0), -1, 1)[:,None,None]\n        u_repr.inv_split = 3", "        u_repr.U *= np.where((np.abs(np.einsum(\"nii->n\", u_repr.U)) == 1), -1, 1)[:,None,None]\n        u_repr.inv_split = 3")]),
 ("P14", 1, "d2 with z to y first", [(U, "             ((-.5,.5*sqrt3), (.5*sqrt3,.5)),\n             ((-.5,-.5*sqrt3), (-.5*sqrt3,.5))]", "             ((-.5,-.5*sqrt3), (-.5*sqrt3,.5)),\n             ((-.5,.5*sqrt3), (.5*sqrt3,.5))]")]),
 ("P14", 1, "p orbitals even", [(HS, "        urepr.U = np.array(self.sym.S)\n        urepr.inv_split = 0\n        self.append(urepr, pos, name)", "        urepr.U = np.array(self.sym.S)\n        urepr.inv_split = urepr.dim()\n        self.append(urepr, pos, name)")]),
 ("P14", 1, "append does not match", [(HS, "        urepr = urepr.copy()\n        urepr.match_sym(self.sym)\n", "        urepr = urepr.copy()\n")]),
 ("P14", 0, "cyclic by a helper", [(Y, "    @staticmethod\n    def cyclic(count: int, inversion: bool) -> 'Symmetry':", "    @staticmethod\n    def _rotation(angle, dim=3):\n        m = np.eye(dim)\n        m[:2, :2] = [[np.cos(angle), np.sin(angle)], [-np.sin(angle), np.cos(angle)]]\n        return m\n\n    @staticmethod\n    def cyclic(count: int, inversion: bool) -> 'Symmetry':"),
   (Y, "            S.append(((c, s, 0), (-s, c, 0), (0, 0, 1)))\n        return Symmetry(S, inversion)\n", "            S.append(Symmetry._rotation(i * 2 * np.pi / count))\n        return Symmetry(S, inversion)\n")]),
 ("P14", 0, "operations by concatenation", [(Y, "        S = list(self.S)\n        if self.inversion:\n            S = S + list(-self.S)\n        return np.array(S)", "        return np.concatenate([self.S, -self.S]) if self.inversion else np.array(self.S)")]),
 ("P14", 0, "transform with matmul", [(Y, "        S = np.einsum(\"nij,mi,jk->nmk\", self.S,\n                      basis_transform, np.linalg.inv(basis_transform))", "        S = basis_transform @ self.S @ np.linalg.inv(basis_transform)")]),
 ("P14", 0, "permute with ix_", [(U, "            self.U[i] = self.U[i][order]\n            self.U[i] = self.U[i][:, order]", "            self.U[i] = self.U[i][np.ix_(order, order)]")]),
 ("P14", 0, "generator with a set of rounded keys", [(Y, "                if not np.any(np.linalg.norm(s[None] - S, axis=(1, 2)) < 1e-7):\n                    S.append(s)\n            # 120", "                seen = False\n                for t in S:\n                    if np.max(np.abs(s - t)) < 1e-7:\n                        seen = True\n                        break\n                if not seen:\n                    S.append(s)\n            # 120")]),
 ("P14", 0, "match_sym vectorised", [(U, "        order = []\n        for p1 in S1:\n            d = np.linalg.norm(p1[None,:] - S2, axis=-1)\n            min_index = np.argmin(d)\n            if d[min_index] > 1e-7:\n                raise ValueError(f\"Symmetries don't match (didn't find {p1} in self)\")\n            order.append(min_index)\n", "        dist = np.linalg.norm(S1[:, None] - S2[None], axis=-1)\n        order = [int(i) for i in np.argmin(dist, axis=1)]\n        if np.any(np.min(dist, axis=1) > 1e-7):\n            raise ValueError(\"Symmetries don't match\")\n")]),
 ("P14", 0, "sum by a block matrix", [(U, "            for i, (u1, u2) in enumerate(zip(self.U, rhs.U)):\n                u_repr.U[i] = direct_sum(u2, u1)\n        elif self.inv_split", "            u_repr.U = np.array([np.block([[b, np.zeros((len(b), len(a)))], [np.zeros((len(a), len(b))), a]]) for a, b in zip(self.U, rhs.U)])\n        elif self.inv_split")]),
 # P15
 ("P15", 1, "digits of a weight swapped", [(D, "0.02778699826589691238, 0.00013527426019966680491])", "0.02778698926589691238, 0.00013527426019966680491])")]),
 ("P15", 1, "weight near the end of the rule", [(D, "w = np.array([1.5006783863250833195e-05,", "w = np.array([1.5006783863250833195e-04,")]),
 ("P15", 1, "half rule without beta", [(D, "axis=0) / beta * 2 * np.log(2)\n\n\ndef gauss_6_f", "axis=0) * 2 * np.log(2)\n\n\ndef gauss_6_f")]),
 ("P15", 1, "right end continued by the left sample", [(D, "            s += f(energy_smpl[-1] - x) * states[..., -1]", "            s += f(energy_smpl[0] - x) * states[..., -1]")]),
 ("P15", 1, "given point ignored", [(D, "s += f(extrapolation_point[0] - x) * extrapolation_point[1]", "s += f(energy_smpl[-1] - x) * extrapolation_point[1]")]),
 ("P15", 1, "min of two corners in the count", [(S, "    volume += np.maximum(0, -np.minimum(np.minimum(a1, a2), a3) - a0)**3", "    volume += np.maximum(0, -np.minimum(a1, a2) - a0)**3")]),
 ("P15", 1, "corner of the surface", [(S, "(np.reshape(( 1,  1, -1), shape)/2 + d * v6", "(np.reshape(( 1, -1, -1), shape)/2 + d * v6")]),
 ("P15", 1, "samples on the wrong side for negative slopes", [(S, "    com *= np.sign(np.stack((sx, sy, sz), axis=-1))", "    com *= np.sign(np.stack((sx, sz, sy), axis=-1))")]),
 ("P15", 1, "sample gradients per step", [(S, "        grads = np.reshape(self.cubes[5:8], (3, -1)).T[select] / self.step_sizes", "        grads = np.reshape(self.cubes[5:8], (3, -1)).T[select]")]),
 ("P15", 1, "normals transform like positions", [(S, "            basis2[:,:,0] = normal @ np.linalg.inv(L)\n            basis2 = np.linalg.qr(basis2).Q\n            self.scale = np.abs(np.linalg.det(np.swapaxes(basis2[:,:,1:], -1, -2) @ L @ basis[:,:,1:]))\n        area, x = cube_cut_area_com(value - self.cubes[0], ", "            basis2[:,:,0] = normal @ L.T\n            basis2 = np.linalg.qr(basis2).Q\n            self.scale = np.abs(np.linalg.det(np.swapaxes(basis2[:,:,1:], -1, -2) @ L @ basis[:,:,1:]))\n        area, x = cube_cut_area_com(value - self.cubes[0], ")]),
 ("P15", 1, "given gradients through the wrong basis", [(S, "np.einsum(\"...i,ij->j...\", grads, self.B)", "np.einsum(\"...i,ji->j...\", grads, self.B)")]),
 ("P15", 1, "tetrahedron used twice", [(S, "    tetras += tetra_cut_volume(a[0], a[7], a[0b101], a[0b001])", "    tetras += tetra_cut_volume(a[0], a[7], a[0b101], a[0b100])")]),
 ("P15", 1, "dual switches at the wrong corner", [(S, "    dual = ay + a0 < 0\n    a0, ax, ay, az = np.where(dual, (-a0, -az, -ay, -ax), (a0, ax, ay, az))\n    # the following makes the calculation avoid division by 0, but introduces an error of magnitude 1e-8 in the special cases\n    ax = np.where(np.abs(ax) < 4e-9, -4e-9, ax)\n    ay = np.where(np.abs(ay) < 1e-9, 1e-9, ay)\n    az = np.where(np.abs(az) < 2e-9, 2e-9, az)\n    volume", "    dual = ax + a0 < 0\n    a0, ax, ay, az = np.where(dual, (-a0, -az, -ay, -ax), (a0, ax, ay, az))\n    # the following makes the calculation avoid division by 0, but introduces an error of magnitude 1e-8 in the special cases\n    ax = np.where(np.abs(ax) < 4e-9, -4e-9, ax)\n    ay = np.where(np.abs(ay) < 1e-9, 1e-9, ay)\n    az = np.where(np.abs(az) < 2e-9, 2e-9, az)\n    volume")]),
 ("P15", 1, "sphere of the wrong size", [(S, "* cell_volume**(1/3)", "* cell_volume**(1/2)")]),
 ("P15", 1, "extrapolation order", [(S, "        return extrapolate_poly([res[0][0], res[1][0]], p=2), extrapolate_poly([res[0][1], res[1][1]], p=2)", "        return extrapolate_poly([res[0][0], res[1][0]], p=2), extrapolate_poly([res[0][1], res[1][0]], p=2)")]),
 ("P15", 1, "energy rule of the wrong order", [(D, "(int1 + (int1 - int2)/(4 - 1))", "(int1 + (int1 - int2)/(2 - 1))")]),
 ("P15", 1, "heat capacity with the raw slope", [(D, "        seebeck = (mu[2] - mu[0]) / (2 * dT) * T\n", "        seebeck = (mu[2] - mu[0]) / (2 * dT)\n")]),
 ("P15", 1, "spin factor missing at finite temperature", [(D, "- self.density(mu) * mu*mu/2) * spin_factor", "- self.density(mu) * mu*mu/2) * 2")]),
 ("P15", 1, "gap of the wrong pair of bands", [(D, "                max_below = self.bands_range[e_int - 1][1]\n                min_above = self.bands_range[e_int][0]\n                fermi_energy =", "                max_below = self.bands_range[e_int - 1][1]\n                min_above = self.bands_range[e_int][1]\n                fermi_energy =")]),
 ("P15", 0, "segments in a loop", [(D, "    s = np.sum(segment(x, energy_smpl[..., :-1], energy_smpl[..., 1:], states[..., :-1], states[..., 1:]), axis=-1)", "    s = 0\n    for i in range(np.shape(states)[-1] - 1):\n        s = s + segment(x, energy_smpl[..., i], energy_smpl[..., i + 1], states[..., i], states[..., i + 1])")]),
 ("P15", 0, "nodes from one half", [(D, "    x = np.array([-5.7755299052817408167, -1.3141165029468411252, 1.3141165029468411252, 5.7755299052817408167])", "    half = np.array([1.3141165029468411252, 5.7755299052817408167])\n    x = np.concatenate([-half[::-1], half])")]),
 ("P15", 0, "cube counts by one formula", [(S, "        return cube_cut_volume(value - self.cubes[0], *self.cubes[1:5])\n\n    def dvolume(self, value: float):\n        return cube_cut_dvolume(value - self.cubes[0], *self.cubes[1:5])", "        return self.volume_dvolume(value)[0]\n\n    def dvolume(self, value: float):\n        return self.volume_dvolume(value)[1]")]),
 ("P15", 0, "tetra table", [(S, "    tetras  = tetra_cut_volume(a[0], a[7], a[0b001], a[0b011])\n    tetras += tetra_cut_volume(a[0], a[7], a[0b011], a[0b010])\n    tetras += tetra_cut_volume(a[0], a[7], a[0b010], a[0b110])\n    tetras += tetra_cut_volume(a[0], a[7], a[0b110], a[0b100])\n    tetras += tetra_cut_volume(a[0], a[7], a[0b100], a[0b101])\n    tetras += tetra_cut_volume(a[0], a[7], a[0b101], a[0b001])\n    return tetras", "    ring = [1, 3, 2, 6, 4, 5]\n    return sum(tetra_cut_volume(a[0], a[7], a[i], a[j]) for i, j in zip(ring, ring[1:] + ring[:1]))")]),
 ("P15", 0, "energy by slices", [(D, "                states = np.array([self.states_below_band(e, i) for e in e_smpl])\n", "                states = np.zeros(len(e_smpl))\n                for n, e in enumerate(e_smpl):\n                    states[n] = self.states_below_band(e, i)\n")]),
 # ---- P21
 ("P21", 1, "fast symmetriser copies with the inverse", [(U, "            if class_copy is not None:\n                i, j, m = class_copy\n                u = self.U[m]\n                result[j] = u @ result[i] @ np.conj(np.swapaxes(u, -1, -2))", "            if class_copy is not None:\n                i, j, m = class_copy\n                u = self.U[m]\n                result[j] = np.conj(np.swapaxes(u, -1, -2)) @ result[i] @ u")]),
 ("P21", 1, "fast symmetriser forgets the sign of mirrored copies", [(U, "                result[j,k:,:k] *= -1\n", "                pass\n")]),
 ("P21", 1, "reference symmetriser without conjugation", [(U, "                    result[i] += np.conj(u.T) @ H_r[j] @ u\n        return", "                    result[i] += u.T @ H_r[j] @ u\n        return")]),
 ("P21", 1, "on-site block keeps one mixed part", [(U, "                        p[k:,:k] = 0\n", "")]),
 ("P21", 1, "symmetrize2 counts inversion only", [(U, "                count += invariants\n", "                count += invariants if sign > 0 or len(s) < 3 else 0 * invariants\n")]),
 ("P21", 1, "mirrored bond not conjugated", [(HS, "                h = H_r3_mirror[j] if mirror else H_r3[j]", "                h = np.swapaxes(H_r3[j], -1, -2) if mirror else H_r3[j]")]),
 ("P21", 1, "reference inversion without parity", [(HS, "* (u1 * u2)", "* u1")]),
 ("P21", 1, "missing image of a bond only drops out", [(HS, "                            p = 0\n                            break\n", "                            pass\n")]),
 ("P21", 1, "origin not made hermitian in the fast version", [(HS, "                H_r[origin] = (H_r[origin] + np.conj(H_r[origin].T)) / 2\n            # symm", "                H_r[origin] = (H_r[origin] + H_r[origin].T) / 2\n            # symm")]),
 ("P21", 1, "merged entries counted once", [(HS, "s_table[key] = (value[0], value[1] + 1)", "s_table[key] = (value[0], value[1])")]),
 ("P21", 1, "merging ignores the second orbital", [(HS, "key = (j, 1 if mirror else 0, u1_, u2_)", "key = (j, 1 if mirror else 0, u1_, 0)")]),
 ("P21", 1, "apply with the transposed element", [(HS, "np.linalg.inv(self.sym.S[s_index]).T @ k", "self.sym.S[s_index].T @ k")]),
 ("P21", 1, "inversion flips the first orbitals only", [(HS, "                n1 += d1\n        # now apply", "        # now apply")]),
 ("P21", 1, "pseudo tensors of even rank", [(Y, "sign = np.sign(np.linalg.det(s))", "sign = np.sign(np.linalg.det(s)) ** (rank[0] + rank[1])")]),
 ("P21", 1, "right indices with the inverse", [(Y, "*rank[1] * (s,), orig", "*rank[1] * (inv_s.T,), orig")]),
 ("P21", 1, "order of the first component only", [(Y, "            full_k = full_k[reorder]\n            order = order[reorder]\n", "            full_k = full_k[reorder]\n            order = order[reorder] if i < 2 else order\n")]),
 ("P21", 1, "upper cell edge kept", [(Y, "full_k = np.where(full_k >= 0.4999999,", "full_k = np.where(full_k > 0.5000001,")]),
 ("P21", 1, "reduced data not removed with its point", [(Y, "                            del reduced[j]\n                            del reduced_k[j]\n", "                            del reduced[i]\n                            del reduced_k[j]\n")]),
 ("P21", 1, "k weight of an even lattice", [(Y, "return 0.5 - np.abs(x % 1.0 - 0.5)", "return 0.5 - np.abs(x % 2.0 - 0.5)")]),
 ("P21", 1, "orbit size without inversion", [(Y, "        return len(self) / weights", "        return len(self.S) / weights")]),
 ("P21", 1, "complete neighbours with the reciprocal group", [(Y, "self.transpose().realize_symmetric(neighbors)", "self.realize_symmetric(neighbors)")]),
 ("P21", 1, "mirrored neighbours kept by the last component", [(Y, "(x for x in n if abs(x) > 1e-7), 1) > 0]", "(x for x in n[1:] if abs(x) > 1e-7), 1) > 0]")]),
 ("P21", 0, "reference symmetriser with einsum", [(U, "                    result[i] += np.conj(u.T) @ H_r[j] @ u\n        return", "                    result[i] += np.einsum(\"ka,kl,lb->ab\", np.conj(u), H_r[j], u)\n        return")]),
 ("P21", 0, "mean by a list", [(HS, "        return result / len(self.sym.S)\n    \n    def symmetrizer", "        count = len(self.sym.S)\n        result = np.array([m / count for m in result])\n        return result\n    \n    def symmetrizer")]),
 ("P21", 0, "parities in a list", [(HS, "                    u1 = 1 if u1.inv_split > 0 else -1\n                    n2 = 0", "                    u1 = (-1, 1)[u1.inv_split > 0]\n                    n2 = 0")]),
 ("P21", 0, "orbit with a helper", [(Y, "                    if np.min(np.linalg.norm(used_k - k_.reshape(1, -1), axis=-1)) < scale * 1e-6:\n                        continue\n                    used_k.append(k_)\n                    full_k.append(k_)\n                    order.append(i)", "                    if not any(np.linalg.norm(u - k_) < scale * 1e-6 for u in used_k):\n                        used_k.append(k_)\n                        full_k.append(k_)\n                        order.append(i)")]),
 ("P21", 0, "sum of squares", [(U, "invariants = (np.einsum(\"ij,nj->ni\", sign*s - np.eye(len(s)), r_smpl)**2).sum(-1) < 1e-7", "invariants = np.sum((sign * (np.asarray(r_smpl) @ s.T) - r_smpl)**2, axis=-1) < 1e-7")]),
 ("P21", 0, "sorted by keys", [(Y, "        neighbors = sorted(neighbors, key=lambda ni: np.linalg.norm(ni[0]))\n", "        neighbors.sort(key=lambda ni: np.linalg.norm(ni[0]))\n")]),

 # P08 / P09
 ("P08", 1, "error of the band structure fit before the normalisation", [(B, "                params_add += last_add * (1 - 1 / max_accel)\n                # change parameters (alpha = 1.0 with the chosen way to normalize the gradient)\n                self.params = self.params + params_add\n                last_add = params_add\n            else:\n                iteration = iterations\n        except KeyboardInterrupt:\n            log.abort()\n        self.normalize()\n        l, err = self.error(k_smpl, ref_bands, band_weights[0], band_offset)\n", "                params_add += last_add * (1 - 1 / max_accel)\n                # change parameters (alpha = 1.0 with the chosen way to normalize the gradient)\n                self.params = self.params + params_add\n                last_add = params_add\n            else:\n                iteration = iterations\n        except KeyboardInterrupt:\n            log.abort()\n        l, err = self.error(k_smpl, ref_bands, band_weights[0], band_offset)\n        self.normalize()\n")]),
 ("P08", 1, "an interrupted fit is not normalised", [(B, "                last_add = params_add\n            else:\n                iteration = iterations\n        except KeyboardInterrupt:\n            log.abort()\n        self.normalize()", "                last_add = params_add\n            else:\n                iteration = iterations\n            self.normalize()\n        except KeyboardInterrupt:\n            log.abort()")]),
 ("P08", 1, "a converged fit returns with the entry of the step before", [(A, "                        log.add_message(\"converged\")\n                        break\n                    last_loss = loss\n                    log.add_data(iteration, loss, max_err)", "                        log.add_message(\"converged\")\n                        self.normalize()\n                        return log\n                    last_loss = loss\n                    log.add_data(iteration, loss, max_err)")]),
 ("P08", 1, "final entry with the loss of the last step", [(A, "            else:\n                iteration = iterations\n        except KeyboardInterrupt:\n            log.abort()\n        self.normalize()\n        l, err = self.error(k_smpl, ref_bands, band_weights[0], band_offset)\n        log.add_data(iteration, l, err)\n        return log\n\n    def optimize_cg", "            else:\n                iteration = iterations\n        except KeyboardInterrupt:\n            log.abort()\n        self.normalize()\n        l, err = self.error(batch if iterations else k_smpl, batch_ref if iterations else ref_bands, band_weights[0], band_offset)\n        log.add_data(iteration, l, err)\n        return log\n\n    def optimize_cg")]),
 ("P08", 1, "iteration not set when interrupted at once", [(A, "        loss = float(\"inf\")\n        iteration = 0\n        try:\n            mat_t_path", "        loss = float(\"inf\")\n        try:\n            mat_t_path")]),
 ("P08", 1, "exceptions instead of interruptions", [(A, "                last_add = H_r_add\n                if train_S:\n                    self.S.H_r = self.S.H_r + S_r_add\n                    last_add_s = S_r_add\n            else:\n                iteration = iterations\n        except KeyboardInterrupt:", "                last_add = H_r_add\n                if train_S:\n                    self.S.H_r = self.S.H_r + S_r_add\n                    last_add_s = S_r_add\n            else:\n                iteration = iterations\n        except Exception:")]),
 ("P08", 1, "interruption not recorded", [("logger.py", "        self.add_message(\"aborted\")\n        self.aborted = True", "        self.add_message(\"aborted\")\n        self.aborted = self.aborted")]),
 ("P08", 1, "every fit aborted", [(B, "            else:\n                iteration = iterations\n        except KeyboardInterrupt:\n            log.abort()\n        self.normalize()\n        l, err = self.error(k_smpl, ref_bands, band_weights[0], band_offset)\n        log.add_data(iteration, l, err)\n        return log\n\n    def normalize", "            else:\n                iteration = iterations\n        except KeyboardInterrupt:\n            pass\n        finally:\n            log.abort()\n        self.normalize()\n        l, err = self.error(k_smpl, ref_bands, band_weights[0], band_offset)\n        log.add_data(iteration, l, err)\n        return log\n\n    def normalize")]),
 ("P08", 1, "final error without the offset", [(B, "            log.abort()\n        self.normalize()\n        l, err = self.error(k_smpl, ref_bands, band_weights[0], band_offset)\n        log.add_data(iteration, l, err)\n        return log\n\n    def normalize", "            log.abort()\n        self.normalize()\n        l, err = self.error(k_smpl, ref_bands, band_weights[0], 0)\n        log.add_data(iteration, l, err)\n        return log\n\n    def normalize")]),
 ("P08", 1, "nothing returned without printing", [(B, "                last_add = params_add\n            else:\n                iteration = iterations\n        except KeyboardInterrupt:\n            log.abort()\n        self.normalize()\n        l, err = self.error(k_smpl, ref_bands, band_weights[0], band_offset)\n        log.add_data(iteration, l, err)\n        return log", "                last_add = params_add\n            else:\n                iteration = iterations\n        except KeyboardInterrupt:\n            log.abort()\n        self.normalize()\n        l, err = self.error(k_smpl, ref_bands, band_weights[0], band_offset)\n        log.add_data(iteration, l, err)\n        if log.print_loss:\n            return log")]),
 ("P08", 1, "loss only logged for steps that improve", [("logger.py", "        self.loss.append(loss)\n", "        if not self.loss or loss <= self.loss[-1]:\n            self.loss.append(loss)\n")]),
 ("P08", 1, "tight binding fit normalised unless interrupted", [(T, "        except KeyboardInterrupt:\n            print(\"\\naborted\")\n        self.normalize()\n", "            self.normalize()\n        except KeyboardInterrupt:\n            print(\"\\naborted\")\n")]),
 ("P08", 0, "finished by a helper", [(B, "            log.abort()\n        self.normalize()\n        l, err = self.error(k_smpl, ref_bands, band_weights[0], band_offset)\n        log.add_data(iteration, l, err)\n        return log\n\n    def normalize", "            log.abort()\n        return self._finish(log, iteration, k_smpl, ref_bands, band_weights, band_offset)\n\n    def _finish(self, log, iteration, k_smpl, ref_bands, band_weights, band_offset):\n        self.normalize()\n        log.add_data(iteration, *self.error(k_smpl, ref_bands, band_weights.reshape(-1), band_offset))\n        return log\n\n    def normalize")]),
 ("P08", 0, "a while loop", [(A, "            for iteration in range(iterations):\n                # faster H and S using cached values", "            iteration = -1\n            while iteration + 1 < iterations:\n                iteration += 1\n                # faster H and S using cached values")]),
 ("P08", 0, "interrupt flag", [(B, "        last_loss = float(\"inf\")\n        iteration = 0\n        try:", "        last_loss = float(\"inf\")\n        iteration, interrupted = 0, False\n        try:"), (B, "                last_add = params_add\n            else:\n                iteration = iterations\n        except KeyboardInterrupt:\n            log.abort()\n", "                last_add = params_add\n            else:\n                iteration = iterations\n        except KeyboardInterrupt:\n            interrupted = True\n        if interrupted:\n            log.abort()\n")]),
 ("P09", 1, "momentum after the mask", [(B, "                if keep_zeros:\n                    params_add *= np.where(np.abs(self.params)\n                                           < 1e-14, 0.0, 1.0)\n                params_add *= learning_rate\n", "                params_add *= learning_rate\n                if keep_zeros and iteration == 0:\n                    params_add *= np.where(np.abs(self.params)\n                                           < 1e-14, 0.0, 1.0)\n")]),
 ("P09", 1, "cg step not symmetrised", [(B, "                self.params -= step\n                if self.symmetrizer is not None:\n                    self.params = self.symmetrizer(self.params)\n", "                if self.symmetrizer is not None and iteration == 0:\n                    step = self.symmetrizer(step)\n                self.params -= step\n")]),
 ("P09", 1, "cg mask before the symmetriser, other entries", [(B, "                if keep_zeros:\n                    self.params *= H_r_mask\n                # keep the 0 entry", "                if keep_zeros:\n                    self.params[1:] *= H_r_mask[:-1]\n                # keep the 0 entry")]),
 ("P09", 1, "constant term trained through the regularisation", [(B, "                    self.params[1:] *= regularization", "                    self.params *= regularization")]),
 ("P09", 1, "constant term trained with momentum", [(B, "                if not train_k0:\n                    # TODO this only works with cos_reduced...\n                    params_add[0] *= 0.0\n", "                if not train_k0 and batch_div == 1:\n                    # TODO this only works with cos_reduced...\n                    params_add[0] *= 0.0\n")]),
 ("P09", 1, "overlap mask taken from the Hamiltonian", [(A, "                    if keep_zeros:\n                        S_r_add *= S_r_mask\n", "                    if keep_zeros and use_pinv:\n                        S_r_add *= S_r_mask\n")]),
 ("P09", 1, "overlap trained whenever it is there", [(A, "        if not train_S:\n            # precompute S for every k_smpl\n            S = self.S.f(k_smpl)\n        # start stochastic", "        if not train_S:\n            # precompute S for every k_smpl\n            S = self.S.f(k_smpl)\n            self.S.H_r = self.S.H_r / len(k_smpl)\n        # start stochastic"), (A, "                self.H.H_r = self.H.H_r + H_r_add\n                last_add = H_r_add\n", "                self.H.H_r = self.H.H_r + H_r_add\n                if use_pinv and not train_S:\n                    self.S.H_r = self.S.H_r + H_r_add * 0.01\n                last_add = H_r_add\n")]),
 ("P09", 1, "offset may exceed the bands by one", [(A, "        N_B = len(ref_bands[0])\n        assert band_offset >= 0 and band_offset <= N - N_B,", "        N_B = len(ref_bands[0])\n        assert band_offset >= 0 and band_offset <= N - N_B + 1,")]),
 ("P09", 1, "negative offsets", [(A, "        assert band_offset >= 0 and band_offset <= N - len(ref_bands[0]),", "        assert band_offset <= N - len(ref_bands[0]),")]),
 ("P09", 1, "symmetriser before the regularised step", [(B, "                if self.symmetrizer is not None:\n                    params_add = self.symmetrizer(params_add)\n                if not train_k0:", "                if self.symmetrizer is not None and not (use_pinv and batch_div > 1):\n                    params_add = self.symmetrizer(params_add)\n                if not train_k0:")]),
 ("P09", 1, "tight binding fit: constant term in the momentum", [(T, "                if not train_k0:\n                    params_add[0] *= 0.0\n", "                if not train_k0 and iteration == 0:\n                    params_add[0] *= 0.0\n")]),
 ("P09", 0, "mask once", [(B, "        last_add = np.zeros_like(self.params)\n        self.normalize()\n        last_loss", "        last_add = np.zeros_like(self.params)\n        self.normalize()\n        zero = np.abs(self.params) < 1e-14\n        last_loss"), (B, "                    params_add *= np.where(np.abs(self.params)\n                                           < 1e-14, 0.0, 1.0)\n", "                    params_add[zero] = 0\n")]),
 ("P09", 0, "momentum by a helper", [(A, "                self.H.H_r = self.H.H_r + H_r_add\n                last_add = H_r_add\n", "                def moved(x, dx):\n                    return x + dx\n                self.H.H_r = moved(self.H.H_r, H_r_add)\n                last_add = H_r_add\n")]),
 ("P09", 0, "checked with an exception", [(B, "        assert band_offset >= 0 and band_offset <= N - len(ref_bands[0])\n", "        if not 0 <= band_offset <= N - len(ref_bands[0]):\n            raise AssertionError(\"bands\")\n")]),
 ("P09", 0, "symmetrised after the mask as well", [(B, "                self.params = self.params + params_add\n                last_add = params_add\n", "                new = self.params + params_add\n                self.params, last_add = new, params_add\n")]),
 ("P10", 1, 'band model: file opened before the format is checked', [(B, '        if format not in {"python", "json", "wannier90"}:\n            raise ValueError(\n                \'supported formats are "python", "json" and "wannier90"\')\n        if format == "python":\n            assert', '        if format != "wannier90":\n            open(filename, "w").close()\n        if format not in {"python", "json", "wannier90"}:\n            raise ValueError(\n                \'supported formats are "python", "json" and "wannier90"\')\n        if format == "python":\n            assert')]),
 ("P10", 1, 'symmetry needed after opening', [(B, '        if format == "python":\n            assert self.sym is not None, "BandStructureModel needs a symmetry to save in this format."\n        opt', '        opt'), (B, '                with open(filename, "w") as file:\n                    file.write(repr(self.params_complex()', '                with open(filename, "w") as file:\n                    assert self.sym is not None, "BandStructureModel needs a symmetry to save in this format."\n                    file.write(repr(self.params_complex()')]),
 ("P10", 1, 'unknown format falls to nothing', [(B, '        if format not in {"python", "json", "wannier90"}:', '        if format not in {"python", "json", "wannier90", "wannier90hr"}:')]),
 ("P10", 1, 'extension wins over the format', [(A, '        if format is None:\n            if filename.endswith(".json"):\n                format = "json"\n            else:\n                raise ValueError("unrecognised format for file " + filename)\n        if format not in {"json"}', '        if format is None or filename.endswith(".json"):\n            if filename.endswith(".json"):\n                format = "json"\n            else:\n                raise ValueError("unrecognised format for file " + filename)\n        if format not in {"json"}')]),
 ("P10", 1, 'json column by column', [("json_tb_format.py", 'for v in h.flat]', 'for v in h.T.flat]')]),
 ("P10", 1, 'reader ignores order of the neighbors', [("json_tb_format.py", 'return neighbors[order], params[order]', 'return neighbors[order], params')]),
 ("P10", 1, 'reader without real numbers', [("json_tb_format.py", '        assert params.shape[3] == 1\n', '        assert params.shape[3] == 2\n')]),
 ("P10", 1, 'wannier writer opens first', [("wannier90_tb_format.py", 'def save_hr(filename, neighbors, params):\n', 'def save_hr(filename, neighbors, params):\n    open(filename, "w").close()\n')]),
 ("P10", 1, 'tb.dat read as hr', [(B, '            elif filename.endswith("tb.dat"):\n                format = "wannier90tb"\n', '            elif filename.endswith("tb.dat"):\n                format = "wannier90hr"\n')]),
 ("P10", 1, 'field called count', [("json_tb_format.py", 'json.dump({"band_count": band_count,', 'json.dump({"bands": band_count,'), ("json_tb_format.py", 'data["band_count"]', 'data.get("bands", data.get("band_count"))')]),
 ("P10", 1, 'models without neighbors saved as far as possible', [(B, '        if self.neighbors is None:\n            raise ValueError(\n                "This function can only be used on default tight binding models")\n        if format is None:\n            if filename.endswith(".repr"):', '        if format is None:\n            if filename.endswith(".repr"):')]),
 ("P10", 0, 'format table', [(B, '            if filename.endswith(".repr"):\n                format = "python"\n            elif filename.endswith(".json"):\n                format = "json"\n            elif filename.endswith(".dat"):\n                format = "wannier90"\n            else:\n                raise ValueError("unrecognised format for file " + filename)\n', '            for extension, name in ((".repr", "python"), (".json", "json"), (".dat", "wannier90")):\n                if filename.endswith(extension):\n                    format = name\n                    break\n            else:\n                raise ValueError("unrecognised format for file " + filename)\n')]),
 ("P10", 0, 'json by dumps', [("json_tb_format.py", '        json.dump({"band_count": band_count, "params": params_repr, "neighbors": [tuple(n) for n in neighbors]}, file)', '        text = json.dumps({"neighbors": neighbors.tolist(), "band_count": band_count, "params": params_repr})\n        file.write(text)')]),
 ("P10", 0, 'nested lists read one by one', [("json_tb_format.py", '    params = np.array([h["data"] for h in data["params"]]).reshape(len(neighbors), band_count, band_count, -1)', '    matrices = []\n    for h in data["params"]:\n        matrices.append(h["data"])\n    params = np.reshape(np.asarray(matrices), (len(neighbors), band_count, band_count, -1))')]),
 ("P20", 1, 'conjugated by the reader', [("json_tb_format.py", 'params = params[...,0] + params[...,1]*1j', 'params = params[...,0] - params[...,1]*1j')]),
 ("P20", 1, 'sorted by squared components', [("json_tb_format.py", '    order = np.argsort(np.linalg.norm(neighbors, axis=-1))\n    return neighbors[order], params[order]', '    order = np.argsort(np.linalg.norm(neighbors, axis=-1))\n    return neighbors[order], params[np.argsort(order)]')]),
 ("P20", 1, 'neighbors as integers of their doubles', [("json_tb_format.py", '"neighbors": [tuple(n) for n in neighbors]', '"neighbors": [tuple(np.abs(n)) for n in neighbors]')]),
 ("P20", 1, 'abbreviated text', [(B, 'floatmode="unique", threshold=100000, legacy=\'1.21\')\n        try:', 'floatmode="unique", legacy=\'1.21\')\n        try:')]),
 ("P20", 1, 'short digits', [(B, 'np.set_printoptions(precision=None, suppress=False, floatmode="unique", threshold=100000, legacy=\'1.21\')\n        try:', 'np.set_printoptions(precision=8, suppress=False, floatmode="maxprec", threshold=100000, legacy=\'1.21\')\n        try:')]),
 ("P20", 1, 'params instead of complex params', [(B, 'file.write(repr(self.params_complex())', 'file.write(repr(self.params)')]),
 ("P20", 1, 'wrong sign of the sine part', [(B, 'H_r[1:n] += H_r[n:] * -1j', 'H_r[1:n] += H_r[n:] * 1j')]),
 ("P20", 1, 'cos reduction undone without the conjugate', [(B, '            if self.cos_reduced:\n                H_r[0] -= self._cos_reduced_count() * np.sum(H_r[1:] + np.conj(np.swapaxes(H_r[1:], -1, -2)), axis=0)\n            return H_r', '            if self.cos_reduced:\n                H_r[0] -= self._cos_reduced_count() * 2 * np.sum(H_r[1:], axis=0)\n            return H_r')]),
 ("P20", 1, 'degeneracies ignored', [("wannier90_tb_format.py", '                params[index][i-1,j-1] = (x + y*1j) / degeneracy_of[pos]\n            elif len(parts) == 8', '                params[index][i-1,j-1] = x + y*1j\n            elif len(parts) == 8')]),
 ("P20", 1, 'matrix entries transposed', [("wannier90_tb_format.py", '            if len(parts) == 7:', '            if len(parts) == 7:\n                parts[3], parts[4] = parts[4], parts[3]')]),
 ("P20", 1, 'degeneracy by position in the kept list', [("wannier90_tb_format.py", '                if pos not in degeneracy_of:\n                    degeneracy_of[pos] = degeneracy[len(degeneracy_of)]\n                neg_pos = tuple([-x for x in pos])\n                if pos not in neighbors_set:\n                    if pos != neg_pos and neg_pos in neighbors_set:\n                        # skip the entry if the adjungated matrix is already in neighbors\n                        index = -1\n', '                if pos not in degeneracy_of:\n                    degeneracy_of[pos] = degeneracy[len(neighbors)]\n                neg_pos = tuple([-x for x in pos])\n                if pos not in neighbors_set:\n                    if pos != neg_pos and neg_pos in neighbors_set:\n                        # skip the entry if the adjungated matrix is already in neighbors\n                        index = -1\n')]),
 ("P20", 1, 'hr degeneracies from one line only', [("wannier90_tb_format.py", '            if len(degeneracy.split()) >= point_count:\n                break', '            if len(degeneracy.split()) >= min(point_count, 15):\n                break')]),
 ("P20", 0, 'sorted before', [("json_tb_format.py", '    order = np.argsort(np.linalg.norm(neighbors, axis=-1))\n    return neighbors[order], params[order]', '    length = np.sqrt(np.sum(neighbors**2, axis=1))\n    order = np.argsort(length)\n    return np.array([neighbors[i] for i in order]), np.array([params[i] for i in order])')]),
 ("P20", 0, 'adjoint by transpose', [(B, 'H_r[0] -= self._cos_reduced_count() * np.sum(H_r[1:n] + np.conj(np.swapaxes(H_r[1:n], -1, -2)), axis=0)\n                pass', 'others = H_r[1:n].sum(axis=0)\n                H_r[0] = H_r[0] - self._cos_reduced_count() * (others + others.conj().T)')]),
 ("P20", 0, 'entries read by slices', [("wannier90_tb_format.py", '                i,j = int(parts[3]), int(parts[4])\n                x,y = float(parts[5]), float(parts[6])', '                i,j = map(int, parts[3:5])\n                x,y = map(float, parts[5:])')]),
 # ---- P22
 ("P22", 1, "shift adds to every neighbor", [(B, "res.params[0] += np.eye(self.band_count()) * float(other)", "res.params += np.eye(self.band_count()) * float(other)")]),
 ("P22", 1, "shift by ones instead of the identity", [(B, "res.params[0] += np.eye(self.band_count()) * float(other)", "res.params[0] += float(other)")]),
 ("P22", 1, "sum forgets the second overlap", [(A, "S=self.S + other.S)", "S=self.S + self.S)")]),
 ("P22", 1, "scaled overlap", [(A, "HermitianFourierSeries(self.H.neighbors, self.H.H_r * fac), S=self.S.copy())", "HermitianFourierSeries(self.H.neighbors, self.H.H_r * fac), S=HermitianFourierSeries(self.S.neighbors, self.S.H_r * fac))")]),
 ("P22", 1, "mirrored overlap term", [(A, "(np.conj(s.T) if mirror else s) * float(other)", "s * float(other)")]),
 ("P22", 1, "transform forgets the overlap", [(A, '        self.S.neighbors = np.einsum("ji,ni->nj", A, self.S.neighbors)\n', "")]),
 ("P22", 1, "transform transposed", [(B, 'self.neighbors[:] = np.einsum("ji,ni->nj", A, self.neighbors)', 'self.neighbors[:] = np.einsum("ij,ni->nj", A, self.neighbors)')]),
 ("P22", 1, "transform replaces the linked array", [(B, 'self.neighbors[:] = np.einsum', 'self.neighbors = np.einsum')]),
 ("P22", 1, "permuted rows only", [(B, "            self.params[i] = self.params[i][:, order]\n", "")]),
 ("P22", 1, "sine part without half", [(B, "            self.params /= 2\n", "            self.params[:n] /= 2\n")]),
 ("P22", 1, "limit by a strict length", [(A, "<= max_length + 1e-8", "< max_length - 1e-8")]),
 ("P22", 1, "matrices not limited along", [(A, "        self.H_r = np.array(self.H_r[keep])\n        return old_len - len(self.neighbors)\n\n    def limit_neighbor_count", "        self.H_r = np.array(self.H_r[:len(self.neighbors)])\n        return old_len - len(self.neighbors)\n\n    def limit_neighbor_count")]),
 ("P22", 1, "on-site matrix cleaned up", [(A, "        keep[0] = True  # always keep the 0\n", "")]),
 ("P22", 1, "counts what stays", [(A, "        keep = np.linalg.norm(self.H_r, axis=(-1, -2)) >= min_norm\n        old_len = len(self.neighbors)\n        keep[0] = True  # always keep the 0\n        self.neighbors = np.array(self.neighbors[keep])\n        self.H_r = np.array(self.H_r[keep])\n        return old_len - len(self.neighbors)", "        keep = np.linalg.norm(self.H_r, axis=(-1, -2)) >= min_norm\n        keep[0] = True  # always keep the 0\n        self.neighbors = np.array(self.neighbors[keep])\n        self.H_r = np.array(self.H_r[keep])\n        return len(self.neighbors)")]),
 ("P22", 1, "supercell neighbors by the wrong matrix", [(A, "new_neighbors = series.neighbors @ (A_new @ np.linalg.inv(A_original)).T", "new_neighbors = series.neighbors @ matrix.T")]),
 ("P22", 1, "supercell positions in the old basis", [(B, "axis=1)] @ A_new.T)", "axis=1)] @ A_original.T)")]),
 ("P22", 0, "cells at the opposite positions", [(A, "neighbor_func(nk + pj - pi)", "neighbor_func(nk + pi - pj)")]),
 ("P22", 1, "duplicates accepted", [(A, '                    raise ValueError("redundant/duplicate neighbors are not allowed")', "                    pass")]),
 ("P22", 0, "shift through add", [(B, "            res.params[0] += np.eye(self.band_count()) * float(other)", "            res.params[0] = res.params[0] + np.diag([float(other)] * self.band_count())")]),
 ("P22", 0, "sum of series by blocks", [(A, "        return HermitianFourierSeries(self.neighbors, direct_sum(self.H_r, other.H_r))\n\nclass", "        n, m = self.H_r.shape[-1], other.H_r.shape[-1]\n        H_r = np.zeros((len(self.H_r), n + m, n + m), dtype=np.result_type(self.H_r, other.H_r))\n        H_r[:, :n, :n] = self.H_r\n        H_r[:, n:, n:] = other.H_r\n        return HermitianFourierSeries(self.neighbors, H_r)\n\nclass")]),
 ("P22", 0, "limit through indices", [(A, "        self.neighbors = np.array(self.neighbors[keep])\n        self.H_r = np.array(self.H_r[keep])\n        return old_len - len(self.neighbors)\n\n    def limit_neighbor_count", "        index = np.flatnonzero(keep)\n        self.neighbors = self.neighbors[index]\n        self.H_r = self.H_r[index]\n        return int(np.sum(~keep))\n\n    def limit_neighbor_count")]),
 ("P22", 0, "supercell by enumeration", [(B, "        for k, nk in enumerate(new_neighbors):\n            for i, pi in enumerate(internal_positions):\n                for j, pj in enumerate(internal_positions):\n                    m, mirror = neighbor_func(nk + pj - pi)\n                    if m is not None:\n                        H_r[k, i * n:(i + 1) * n, j * n:(j + 1) *\n                            n] = params[m] if not mirror else np.conj(params[m].T)\n", "        blocks = H_r.reshape(len(params), det, n, det, n)\n        for i in range(det):\n            for j in range(det):\n                shift = internal_positions[j] - internal_positions[i]\n                for k in range(len(new_neighbors)):\n                    m, mirror = neighbor_func(new_neighbors[k] + shift)\n                    if m is None:\n                        continue\n                    blocks[k, i, :, j, :] = np.conj(params[m].T) if mirror else params[m]\n")]),
 # ---- P23
 ("P23", 1, "gradient without conjugate", [("linalg.py", 'ev = np.linalg.eigh(H)\n    path = [\'einsum_path\', (0, 1), (0, 1)]  # precomputed path for best speed\n    grads = np.real(np.einsum("...ji,...njk,...ki->...ni", np.conj(ev), dH', 'ev = np.linalg.eigh(H)\n    path = [\'einsum_path\', (0, 1), (0, 1)]  # precomputed path for best speed\n    grads = np.real(np.einsum("...ji,...njk,...ki->...ni", ev, dH')]),
 ("P23", 1, "overlap gradient without the energy", [("linalg.py", "optimize=path)) * bands[:, None, :]", "optimize=path))")]),
 ("P23", 1, "overlap gradient added", [("linalg.py", "    grads -= np.real", "    grads += np.real")]),
 ("P23", 1, "first gradient matrix only", [("linalg.py", '"...pik,...qki->...pqi", dH_ev, dH_ev2', '"...pik,...qki->...qpi", dH_ev, np.abs(dH_ev2)')]),
 ("P23", 1, "second order counted once", [("linalg.py", "return eigvals, grads, hess1 - 2 * hess2", "return eigvals, grads, hess1 - hess2")]),
 ("P23", 1, "sign of the level distance", [("linalg.py", "    diff = eigvals[..., :, None] - eigvals[..., None, :]", "    diff = eigvals[..., None, :] - eigvals[..., :, None]")]),
 ("P23", 1, "generalised problem of the first overlap", [("linalg.py", "scipy.linalg.eigh(H[i], S[i])", "scipy.linalg.eigh(H[i], S[0])")]),
 ("P23", 1, "values without overlap", [("linalg.py", "scipy.linalg.eigvalsh(H[i], S[i])", "scipy.linalg.eigvalsh(H[i])")]),
 ("P23", 1, "bands ignore the overlap gradient", [(A, "geigh_grad(self.H.f(k_smpl), self.S.f(k_smpl), self.H.df(k_smpl), self.S.df(k_smpl))", "geigh_grad(self.H.f(k_smpl), self.S.f(k_smpl), self.H.df(k_smpl), 0*self.S.df(k_smpl))")]),
 ("P23", 1, "norm of the eigenvectors ignored", [(A, "        hess1 -= grads[:, :, None] * norm[:, None] + norm[:, :, None] * grads[:, None]\n", "")]),
 ("P23", 1, "norm counted in one order only", [(A, "grads[:, :, None] * norm[:, None] + norm[:, :, None] * grads[:, None]", "2 * grads[:, :, None] * norm[:, None]")]),
 ("P23", 1, "Slater-Koster hessian sums real parts", [(T, 'hess2 = np.real(np.einsum("mpik, mqki -> mpqi", df_ev, db))', 'hess2 = np.einsum("mpik, mqki -> mpqi", np.real(df_ev), np.real(db))')]),
 ("P23", 1, "best offset excluded", [("loss.py", "        for i in range(max_offset + 1):\n            if len(bands[0]) < len(ref_bands[0]):\n                diff = (ref_bands[:,i:i+compare_bands] - bands) * select", "        for i in range(max(max_offset, 1)):\n            if len(bands[0]) < len(ref_bands[0]):\n                diff = (ref_bands[:,i:i+compare_bands] - bands) * select")]),
 ("P23", 1, "window of the first bands", [("loss.py", "select[:,i:i+compare_bands]", "select[:,:compare_bands]")]),
 ("P23", 1, "costs not squared", [("loss.py", "(ref_bands[i][select,None] - bands[i])**2", "np.abs(ref_bands[i][select,None] - bands[i])")]),
 ("P23", 1, "weights squared once", [("loss.py", "    err *= np.reshape(band_weights, (1, -1))\n", "    err *= np.reshape(np.sqrt(band_weights), (1, -1))\n")]),
 ("P23", 1, "largest weighted deviation", [("loss.py", "    max_err = np.max(np.abs(err), axis=0)\n    err *= np.reshape(band_weights, (1, -1))\n", "    err = err * np.reshape(band_weights, (1, -1))\n    max_err = np.max(np.abs(err), axis=0)\n")]),
 ("P23", 1, "histogram of the bands", [("loss.py", "                if len(bands[0]) < len(ref_bands[0]):\n                    ref_bands2 = ref_bands[:,i:i+compare_bands]\n", "                if len(bands[0]) < len(ref_bands[0]):\n                    ref_bands2 = ref_bands[:,:compare_bands]\n")]),
 ("P23", 1, "bins of double width", [("loss.py", "<= h/2]", "<= h]")]),
 ("P23", 1, "free gradients unsorted", [("bulk_properties.py", "        bands = np.take_along_axis(bands, order, axis=-1)\n        grad = np.take_along_axis(grad, order[:, None, :], axis=-1)\n        return self.fac * bands, self.fac * grad\n", "        bands = np.take_along_axis(bands, order, axis=-1)\n        grad = grad[:, :, :order.shape[-1]]\n        return self.fac * bands, self.fac * grad\n")]),
 ("P23", 0, "gradient by matmul", [("linalg.py", 'eigvals, ev = np.linalg.eigh(H)\n    path = [\'einsum_path\', (0, 1), (0, 1)]  # precomputed path for best speed\n    grads = np.real(np.einsum("...ji,...njk,...ki->...ni", np.conj(ev), dH, ev, optimize=path))', 'eigvals, ev = np.linalg.eigh(H)\n    v = ev[..., None, :, :]\n    grads = np.real(np.sum(np.conj(v) * (dH @ v), axis=-2))')]),
 ("P23", 0, "overlap gradient in one matrix", [("linalg.py", '    grads = np.real(np.einsum("...ji,...njk,...ki->...ni", np.conj(ev), dH, ev, optimize=path))\n    # TODO check!\n    grads -= np.real(np.einsum("...ji,...njk,...ki->...ni", np.conj(ev), dS, ev, optimize=path)) * bands[:, None, :]\n', '    h, s = (np.real(np.einsum("...ji,...njk,...ki->...ni", np.conj(ev), d, ev, optimize=path)) for d in (dH, dS))\n    grads = h - bands[:, None, :] * s\n')]),
 ("P23", 0, "losses by mean", [("loss.py", "    return np.linalg.norm(err) / len(bands)**0.5, max_err", "    return np.sqrt(np.sum(err**2) / len(err)), max_err")]),
 ("P23", 0, "window through infinity", [("loss.py", "            cost = min(cost, np.linalg.norm(diff))\n", "            new = np.linalg.norm(diff)\n            if new < cost:\n                cost = new\n")]),
 ("P23", 0, "free waves by a helper", [("bulk_properties.py", "        k_smpl = np.asarray(k_smpl)[:, :, None] - self.k_neighbors[None, :, :]\n        bands = self.fac * np.linalg.norm(k_smpl, axis=-2)**2\n        bands = np.sort(bands, axis=-1)\n", "        waves = np.asarray(k_smpl)[:, :, None] - self.k_neighbors\n        bands = np.sort(self.fac * (waves * waves).sum(axis=1))\n")]),

("P01", 1, "difference into a view of the references",[(B,"                diff = batch_ref - eigvals\n","                diff = batch_ref\n                diff -= eigvals\n")]),
("P01", 1, "shuffle the caller's points",[(B,"        # memoize self.f_i here using a rectangular matrix\n        f_i = np.zeros((len(k_smpl), len(self.params)), dtype=np.complex128)\n","        if batch_div > 1:\n            np.random.shuffle(k_smpl)\n        f_i = np.zeros((len(k_smpl), len(self.params)), dtype=np.complex128)\n")]),
("P01", 1, "wrap rows in place",[(Y,"        order = np.asarray(order)\n        full_k = np.asarray(full_k)\n        # wrap","        order = np.asarray(order)\n        full_k = np.asarray(full_k)\n        # wrap"),]) if 0 else
("P01", 1, "wrap rows in place",[(Y,"        if unit_cell:\n","        if unit_cell:\n            for k in k_smpl:\n                if not isinstance(k, tuple):\n                    k %= 1.0\n")]),
("P01", 1, "reduce in the caller's cell",[(Y,"        k_smpl = np.asarray(k_smpl)\n        data = np.asarray(data)\n","        k_smpl = np.asarray(k_smpl)\n        data = np.asarray(data)\n        np.round(k_smpl, 9, out=k_smpl)\n")]),
("P01", 1, "neighbors sorted in place",[(Y,"        neighbors, order = self.transpose().realize_symmetric(neighbors)\n","        if isinstance(neighbors, list):\n            neighbors.sort(key=np.linalg.norm)\n        neighbors, order = self.transpose().realize_symmetric(neighbors)\n")]),
("P01", 1, "interpolate wraps by mask",[(K,"    kdim = len(k_smpl[0])\n    if sym is not None:","    kdim = len(k_smpl[0])\n    if periodic:\n        k_smpl[k_smpl >= 0.5] -= 1.0\n    if sym is not None:")]),
("P01", 1, "cg negates b",[(L,"        r = -b\n","        r = np.negative(b, out=b)\n")]),
("P01", 1, "matching the argument",[(HSY,"        urepr = urepr.copy()\n        urepr.match_sym(self.sym)\n        self.U.append(urepr)","        urepr.match_sym(self.sym)\n        self.U.append(urepr.copy())")]),
("P01", 1, "halve the given matrices",[(B,"        if self.exp:\n            self.params = np.array(H_r)\n            if self.cos_reduced:","        if self.exp:\n            H_r = np.asarray(H_r)\n            H_r[0] = (H_r[0] + np.conj(H_r[0].T)) / 2\n            self.params = np.array(H_r)\n            if self.cos_reduced:")]),
("P01", 1, "origin symmetrised in the argument",[(HSY,"            if origin is not None:\n                H_r = np.array(H_r)\n","            if origin is not None:\n                H_r = np.asarray(H_r)\n")]),
("P01", 1, "overlap regularised",[(L,"                la, ev = scipy.linalg.eigh(H[i], S[i])\n","                la, ev = scipy.linalg.eigh(H[i], S[i], overwrite_b=True)\n")]),
("P01", 1, "start consumed",[(K,"            additional = start[1:]\n            start = start[0]\n","            additional = start\n            start = additional.pop(0) if isinstance(start, list) else start[0]\n            additional = additional if isinstance(additional, list) else additional[1:]\n")]),
("P01", 1, "temperatures sorted",[(D,"        T_smpl = np.asarray(T_smpl)\n        subset","        T_smpl = np.asarray(T_smpl)\n        T_smpl.sort()\n        subset")]),
("P02", 1, "names shared",[(HSY,"        u_repr.names = self.names.copy()","        u_repr.names = self.names")]),
("P02", 1, "U list shared",[(HSY,"        u_repr.U = [u.copy() for u in self.U]","        u_repr.U = self.U")]),
("P02", 1, "representation copy shares",[(U,"        u_repr.U = np.array(self.U)\n        return u_repr","        u_repr.U = np.asarray(self.U)\n        return u_repr")]),
("P02", 1, "overlap shared by scaling",[(A,"self.H.H_r * fac), S=self.S.copy())","self.H.H_r * fac), S=self.S)")]),
("P02", 1, "sum with empty series",[(A,"        return HermitianFourierSeries(self.neighbors, direct_sum(self.H_r, other.H_r))","        if len(other.H_r[0]) == 0:\n            return self\n        return HermitianFourierSeries(self.neighbors, direct_sum(self.H_r, other.H_r))")]),
("P02", 1, "params held",[(B,"        if self.exp:\n            self.params = np.array(H_r)\n            if self.cos_reduced:","        if self.exp:\n            self.params = np.array(H_r) if self.cos_reduced else np.asarray(H_r)\n            if self.cos_reduced:")]),
("P02", 1, "complex params returned",[(A,"        return np.array(self.H.H_r)\n","        return self.H.H_r\n")]),
("P01", 1, "cg keeps start",[(L,"        x = np.array(x0)  # x","        x = np.asarray(x0)  # x")]),
("P02", 1, "path holds start array",[(K,"            self.path = [np.array(start).reshape(-1)]","            self.path = [np.asarray(start).reshape(-1)]")]) if 0 else
("P02", 1, "transform of copy",[(B,"        model = BandStructureModel(self.f_i, self.df_i, self.params.copy(), ddf_i=self.ddf_i)","        model = BandStructureModel(self.f_i, self.df_i, [], ddf_i=self.ddf_i)\n        model.params = self.params")]),
("P02", 1, "fold identity",[(A,"        assert len(internal_positions) == det\n","        assert len(internal_positions) == det\n        if det == 1:\n            return AsymTightBindingModel(self.H, self.S)\n")]),
("P03", 1, "names padded on plotting",[(K,"        return self.names\n","        self.names += [\"\"] * (len(self.indices) - len(self.names))\n        self.names[0] = self.names[0].strip()\n        return self.names\n")]),
("P03", 1, "x in place",[(K,"        if 0 in self.indices:\n            sym_x.append(0)","        self.indices.sort(reverse=True)\n        if 0 in self.indices:\n            sym_x.append(0)")]),
("P03", 1, "range tightened on query",[(D,"        if self.bands_range[i][0] < energy < self.bands_range[i][1]:\n            return np.mean(self.smearing[i].volume(energy))","        if self.bands_range[i][0] < energy < self.bands_range[i][1]:\n            v = np.mean(self.smearing[i].volume(energy))\n            if v == 0:\n                self.bands_range[i] = (energy, self.bands_range[i][1])\n            return v")]),
("P03", 1, "symmetrizer keeps a buffer",[(HSY,"        def symmetrizer_func(H_r):\n            assert len(neighbors) == len(H_r)\n","        sums = {}\n        def symmetrizer_func(H_r):\n            assert len(neighbors) == len(H_r)\n"),(HSY,"            result = np.zeros_like(H_r) # all U_S","            result = sums.setdefault(H_r.shape, np.zeros_like(H_r)) # all U_S")]),
("P03", 1, "equality matches the order",[(Y,"        return pointcloud_distance(self.S, other.S) < len(self.S) * 1e-7","        d = pointcloud_distance(self.S, other.S)\n        if d < len(self.S) * 1e-7:\n            self.S = other.S\n        return d < len(self.S) * 1e-7")]),
("P03", 1, "check rounds",[(U,"    def check(self) -> bool:","    def check(self) -> bool:\n        self.U[np.abs(self.U) < 1e-12] = 0\n        return self._check()\n\n    def _check(self) -> bool:")]),
("P03", 1, "operations extend S",[(Y,"        S = list(self.S)\n        if self.inversion:\n            S = S + list(-self.S)","        S = list(self.S)\n        if self.inversion:\n            self.S = np.concatenate([self.S, -self.S])\n            S = self.S")]),
("P03", 1, "parameters on the model",[(SK,"        dummy_params = np.zeros(np.shape(self.model.params), dtype=complex)","        dummy_params = self.model.params\n        dummy_params[...] = 0")]),
("P03", 1, "random secant start",[(D,"        e_smpl, states_smpl, _ = self.full_curve(N=2)\n        e_index","        e_smpl, states_smpl, _ = self.full_curve(N=2)\n        electrons = electrons + 1e-12 * np.random.random()\n        e_index")]),
("P03", 1, "cos count stored",[(B,"            H_r = np.array(self.params)","            H_r = self.params")]),
("P04", 1, "warnings muted",[(Y,"        if bad_duplicates:\n            warnings.warn","        if bad_duplicates:\n            warnings.simplefilter(\"once\")\n            warnings.warn")]),
("P04", 1, "points remembered",[(K,"            point = np.array(point).reshape(1, -1)\n","            if name is not None:\n                self.points.setdefault(name, (np.array(point), name))\n            point = np.array(point).reshape(1, -1)\n")]),
("P01", 1, "default range widened",[("fermi_surface.py","def plot_2D_fermi_surface(model, fermi_energy, z=[0, 1 / 2], N=50, show=plt.show, k_range=[-0.5, 0.5], accelerate=False):\n","def plot_2D_fermi_surface(model, fermi_energy, z=[0, 1 / 2], N=50, show=plt.show, k_range=[-0.5, 0.5], accelerate=False):\n    z.sort()\n")]),
("P04", 1, "divide silenced on first use",[(D,"        assert electrons >= 0 and electrons <= len(self.bands_range)","        np.seterr(divide='ignore')\n        assert electrons >= 0 and electrons <= len(self.bands_range)")]),
("P04", 1, "errstate entered",[(D,"        # first approximation from a very rough states curve\n","        state = np.errstate(divide='raise')\n        state.__enter__()\n        # first approximation from a very rough states curve\n"),(D,"            if abs((states - electrons) / density) <= tol:\n                return fermi_energy\n        raise","            if abs((states - electrons) / density) <= tol:\n                state.__exit__(None, None, None)\n                return fermi_energy\n        raise")]),
("P04", 1, "local generator seeded globally",[(L,"def random_hermitian(n):\n","def random_hermitian(n):\n    np.random.set_state(np.random.RandomState(n).get_state())\n")]),
]

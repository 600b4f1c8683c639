"""Synthetic L1A files and auxiliary files, from plain parameters."""
import json, os
from types import SimpleNamespace as NS
import numpy as np
import netCDF4 as nc
from . import ref

WGS = dict(semi_major_axis=6378137.0, semi_minor_axis=6356752.3142, flat=0.00335281067183084,
           earth_radius=6378137.0, c=299792458.0, pi=np.pi, secday=86400)


def default_params(**kw):
    """scaled-down instrument: small bursts, same orbit geometry"""
    P = NS(**WGS)
    P.mean_sat_alt = 814.5e3
    P.ns, P.npul = 16, 8
    P.freq = 13.575e9
    P.pulse_length = 4.48e-5
    P.bw = 320e6 / 12
    P.ptx, P.gain = 8.4510, 41.9
    P.uso, P.mult = 10e6, 2.6
    P.prf = 17825.311
    P.brf = 1 / 0.125
    P.ant_weights = P.ant_angles = None
    P.ant_spacing = None
    P.mask_min = P.mask_max = None
    P.ptr_width, P.fft_step, P.ratio_trc = 3.0e-9, 22321.43, -98.66
    # options
    P.flag_cal1 = P.flag_cal2 = True
    P.cal2_index = 2
    P.focus, P.focus_lat, P.focus_lon, P.focus_alt = False, 0., 0., 0.
    P.azimuth, P.win, P.win_width = 'approx', 'none', 8
    P.hamming, P.hanning = (.54, .46), (.5, .5)
    P.flag_doppler = P.flag_slant = True
    P.flag_masking = True
    P.flag_avoid_zeros = True
    P.flag_antenna = False
    P.zp, P.n_looks = 2, 20
    P.min_lat = P.max_lat = P.min_lon = P.max_lon = None
    P.fmt = 'extended'
    P.__dict__.update(kw)
    return P


def _v(x, **k):
    return dict(value=x, **k)


def aux_dicts(P):
    cst = dict(semi_major_axis_cst=_v(P.semi_major_axis), semi_minor_axis_cst=_v(P.semi_minor_axis),
               flat_coeff_cst=_v(P.flat), earth_radius_cst=_v(P.earth_radius), pi_cst=_v(P.pi), c_cst=_v(P.c),
               sec_in_day_cst=_v(P.secday))
    cst['__metainf__'] = dict(version=0)
    chd = dict(mean_sat_alt_chd=_v(P.mean_sat_alt), N_samples_sar_chd=_v(P.ns), N_ku_pulses_burst_chd=_v(P.npul),
               freq_ku_chd=_v(P.freq), pulse_length_chd=_v(P.pulse_length), bw_ku_chd=_v(P.bw),
               power_tx_ant_ku_chd=_v(P.ptx), antenna_gain_ku_chd=_v(P.gain), uso_freq_nom_chd=_v(P.uso),
               alt_freq_multiplier_chd=_v(P.mult), prf_sar_chd=_v(P.prf), brf_sar_chd=_v(P.brf),
               ptr_width_chd=_v(P.ptr_width), fft_step_freq_ku_chd=_v(P.fft_step), ratio_trc_ku_chd=_v(P.ratio_trc))
    if P.ant_weights is not None:
        chd['antenna_weights_chd'] = _v(list(map(float, P.ant_weights)))
        chd['antenna_angles_chd'] = _v(list(map(float, P.ant_angles)))
        chd['antenna_angles_spacing_chd'] = _v(P.ant_spacing)
    if P.mask_min is not None: chd['look_angle_mask_min_chd'] = _v(P.mask_min)
    if P.mask_max is not None: chd['look_angle_mask_max_chd'] = _v(P.mask_max)
    chd['__metainf__'] = dict(version=1)
    cnf = dict(flag_cal2_correction_cnf=_v(P.flag_cal2), flag_uso_correction_cnf=_v(True),
               flag_cal2_table_index_cnf=_v(P.cal2_index), flag_cal1_corrections_cnf=_v(P.flag_cal1),
               flag_cal1_intraburst_corrections_cnf=_v(True), flag_surface_focusing_cnf=_v(P.focus),
               surface_focusing_lat_cnf=_v(P.focus_lat), surface_focusing_lon_cnf=_v(P.focus_lon),
               surface_focusing_alt_cnf=_v(P.focus_alt), flag_azimuth_processing_method_cnf=_v(P.azimuth),
               flag_postphase_azimuth_processing_cnf=_v(False), flag_azimuth_windowing_method_cnf=_v(P.win),
               azimuth_window_width_cnf=_v(P.win_width), flag_doppler_range_correction_cnf=_v(P.flag_doppler),
               flag_slant_range_correction_cnf=_v(P.flag_slant), flag_window_delay_alignment_method_cnf=_v(0),
               flag_stack_masking_cnf=_v(P.flag_masking), flag_avoid_zeros_in_multilooking_cnf=_v(P.flag_avoid_zeros),
               flag_surface_weighting_cnf=_v(False), flag_antenna_weighting_cnf=_v(P.flag_antenna),
               zp_fact_range_cnf=_v(P.zp), N_looks_stack_cnf=_v(P.n_looks), output_format_flag_cnf=_v(P.fmt))
    for k in ('min_lat', 'max_lat', 'min_lon', 'max_lon'):
        if getattr(P, k) is not None:
            cnf[k + '_cnf'] = _v(getattr(P, k))
    cnf['__metainf__'] = dict(version=3)
    return cnf, cst, chd


def write_aux(P, folder):
    os.makedirs(folder, exist_ok=True)
    out = []
    for name, d in zip(('CNF', 'CST', 'CHD'), aux_dicts(P)):
        p = os.path.join(folder, name + '.json')
        with open(p, 'w') as fp:
            json.dump(d, fp, indent=1)
        out.append(p)
    return tuple(out)


# ------------------------------------------------------------------ L1A
# short name -> (file variable, type, scale, offset, fill, extra dims)
SFX = '_l1a_echo_sar_ku'
VARS = {}


def _def(short, typ, scale=None, offset=0., fill=None, dims=(), name=None):
    VARS[short] = ((name or short) + SFX, typ, scale, offset, fill, dims)


_def('UTC_day', 'i2', fill=32767)
_def('UTC_sec', 'f8', fill=1.84467440737096e+19)
_def('UTC_time_20hz', 'f8')
_def('isp_coarse_time', 'u4', fill=4294967295)
_def('isp_fine_time', 'i4', fill=2147483647)
_def('flag_time_status', 'i1', fill=127)
_def('sral_fine_time', 'u4', fill=4294967295)
_def('lat', 'i4', 1e-6, fill=2147483647)
_def('lon', 'i4', 1e-6, fill=2147483647)
_def('surf_type', 'i1', fill=127)
_def('burst_count_prod', 'i4', fill=2147483647)
_def('seq_count', 'u2', fill=65535)
_def('burst_count_cycle', 'i1', fill=127)
for _n in ('nav_bul_status', 'nav_bul_source', 'oper_instr', 'SAR_mode', 'cl_gain', 'acq_stat', 'dem_eeprom',
           'weighting', 'loss_track', 'agccode_ku', 'agccode_c', 'cal2_ku_ind', 'cal1_ku_ind'):
    _def(_n, 'i1', fill=127)
_def('h0_nav_dem', 'u4', fill=4294967295)
_def('h0_applied', 'u4', fill=4294967295)
_def('cor2_nav_dem', 'i2', fill=32767)
_def('cor2_applied', 'i2', fill=32767)
_def('dh0', 'i4', fill=2147483647)
_def('alt', 'i4', 1e-4, 700000., fill=2147483647)
_def('orb_alt_rate', 'i2', .01, fill=32767)
for _n in ('x_pos', 'y_pos', 'z_pos', 'x_vel', 'y_vel', 'z_vel'):
    _def(_n, 'f8', fill=1.84467440737096e+19)
for _n in ('roll', 'pitch', 'yaw'):
    _def(_n + '_sat_pointing', 'i2', 1e-4, fill=32767)
    _def(_n + '_sral_mispointing', 'i2', 1e-4, fill=32767)
_def('range_ku', 'i4', 1e-4, 700000., fill=2147483647)
_def('int_path_cor_ku', 'i4', 1e-4, fill=2147483647)
_def('uso_cor', 'i4', 1e-4, fill=2147483647)
_def('cog_cor', 'i2', 1e-4, fill=32767)
for _n in ('agc_ku', 'agc_c', 'scale_factor_ku', 'scale_factor_c', 'sig0_cal_ku', 'sig0_cal_c'):
    _def(_n, 'i4', .01, fill=2147483647)
_def('i_meas', 'i2', fill=32767, dims=('sar_ku_pulse_burst_ind', 'echo_sample_ind'), name='i_meas_ku')
_def('q_meas', 'i2', fill=32767, dims=('sar_ku_pulse_burst_ind', 'echo_sample_ind'), name='q_meas_ku')
_def('gprw', 'u4', 1e-4, fill=4294967295, dims=('ltm_max_ind', 'echo_sample_ind'), name='gprw_meas_ku')
_def('burst_power', 'u4', 1e-4, fill=4294967295, dims=('sar_ku_pulse_burst_ind',), name='burst_power_cor_ku')
_def('burst_phase', 'i4', 1e-4, fill=2147483647, dims=('sar_ku_pulse_burst_ind',), name='burst_phase_cor_ku')

GLOBALS = dict(mission_name='Sentinel 3A', altimeter_sensor_name='SRAL', gnss_sensor_name='GNSS',
               doris_sensor_name='DORIS', references='PDFS', acq_station_name='KIRUNA', xref_altimeter_level0='L0',
               xref_navatt_level0='NAT', xref_altimeter_orbit='ORB', xref_doris_uso='USO',
               xref_altimeter_ltm_lrm_cal1='CA1L', xref_altimeter_ltm_sar_cal1='CA1S',
               xref_altimeter_ltm_ku_cal2='CA2K', xref_altimeter_ltm_c_cal2='CA2C',
               xref_altimeter_characterisation='CHD', xref_time_correlation='TCOR', xref_platform='PLAT',
               history='made up', product_name='S3A_SR_1_SRA_A__20130415T054207_20130415T054257.SEN3')


def write_l1a(path, D, P, glob=None):
    """D: dict short name -> physical values.  Returns the decoded (stored) values."""
    n = len(D['time'])
    out = dict(time=np.asarray(D['time'], float))
    with nc.Dataset(path, 'w') as ds:
        ds.createDimension('echo_sample_ind', P.ns)
        ds.createDimension('sar_ku_pulse_burst_ind', P.npul)
        ds.createDimension('sar_c_pulse_burst_ind', 2)
        ds.createDimension('ltm_max_ind', 3)
        ds.createDimension('time_l1a_echo_sar_ku', n)
        for d in ('echo_sample_ind', 'sar_ku_pulse_burst_ind', 'sar_c_pulse_burst_ind', 'ltm_max_ind'):
            v = ds.createVariable(d, 'i2', (d,))
            v[:] = np.arange(len(ds.dimensions[d]))
        v = ds.createVariable('time_l1a_echo_sar_ku', 'f8', ('time_l1a_echo_sar_ku',))
        v[:] = D['time']
        for short, (name, typ, scale, off, fill, dims) in VARS.items():
            v = ds.createVariable(name, typ, ('time_l1a_echo_sar_ku',) + dims, fill_value=fill)
            v.set_auto_maskandscale(False)
            shape = (n,) + tuple(len(ds.dimensions[d]) for d in dims)
            x = np.broadcast_to(np.asarray(D.get(short, 0), float), shape)
            if scale is not None:
                v.scale_factor = scale
                v.add_offset = off
                raw = np.round((x - off) / scale)
            else:
                raw = x if typ[0] == 'f' else np.round(x)
            raw = raw.astype(typ)
            v[:] = raw
            out[short] = raw * scale + off if scale is not None else raw.astype(float)
        g = dict(GLOBALS) if glob is None else glob
        for k, x in g.items():
            ds.setncattr(k, x)
    return out


def orbit(P, n, t, lat0=20., lon0=0., incl=98.6, alt=814.5e3, asc=True, radial=0., ecc_amp=0.):
    """circular orbit through (lat0, lon0); t relative seconds. returns pos, vel (Earth-fixed, no rotation)"""
    lat, lon = np.radians(lat0), np.radians(lon0)
    r0 = np.linalg.norm(ref.lla2ecef(lat, lon, alt, P))
    u = ref.lla2ecef(lat, lon, alt, P) / r0
    east = np.array([-np.sin(lon), np.cos(lon), 0.])
    north = np.cross(u, east)
    # heading
    h = np.radians(incl) if asc else np.radians(180 - incl)
    ci = np.cos(np.radians(incl)) / max(np.cos(lat), 1e-3)
    ci = np.clip(ci, -1, 1)
    head = np.arcsin(ci)          # azimuth from north
    d = np.sin(head) * east + (1 if asc else -1) * np.cos(head) * north
    w = 7450. / r0
    a = w * t
    c, s = np.cos(a)[:, None], np.sin(a)[:, None]
    rr = (r0 + radial * t)[:, None]
    pos = rr * (c * u + s * d)
    vel = rr * w * (-s * u + c * d) + radial * (c * u + s * d)
    return pos, vel


def make_bursts(P, rng, n, t0=4.2e8, lat0=20., lon0=10., alt=814.5e3, asc=True, radial=0., day_utc_off=0.,
                dt=None, amp=12., rough=1.0, tracker_step=0., utc_shift=0., incl=98.6, dopp=0.):
    """physical arrays of n bursts along an orbit; dt: array of burst intervals (defaults to constant)"""
    bri = 1 / P.brf
    if dt is None:
        dt = np.full(n - 1, bri)
    t = np.concatenate([[0.], np.cumsum(dt)])
    pos, vel = orbit(P, n, t, lat0, lon0, incl, alt, asc, radial)
    lat, lon, h = ref.ecef2lla(pos, P)
    D = dict(time=t0 + t)
    utc = t0 + t - utc_shift       # seconds since 2000-01-01 UTC
    D['UTC_day'] = np.floor(utc / 86400)
    D['UTC_sec'] = utc - D['UTC_day'] * 86400
    D['UTC_time_20hz'] = D['time']
    D['lat'], D['lon'], D['alt'] = np.degrees(lat), np.degrees(lon), h
    D['x_pos'], D['y_pos'], D['z_pos'] = pos.T
    D['x_vel'], D['y_vel'], D['z_vel'] = vel.T
    D['orb_alt_rate'] = np.gradient(h, t) if n > 1 else np.zeros(n)
    terrain = 30. + 8 * rough * np.sin(2 * np.pi * t / (37 * bri) + rng.uniform(0, 6)) + np.cumsum(
        rng.normal(0, .4 * rough, n))
    step = np.zeros(n)
    if tracker_step:
        for k in rng.integers(0, n, max(1, n // 60)):
            step[k:] += rng.normal(0, tracker_step)
    D['cog_cor'] = 0.55 + rng.normal(0, .01, n)
    D['range_ku'] = h - terrain - step - D['cog_cor']
    for a in ('roll', 'pitch', 'yaw'):
        D[a + '_sat_pointing'] = rng.uniform(-.5, .5) + rng.normal(0, .02, n)
        D[a + '_sral_mispointing'] = rng.uniform(-.2, .2) + .1 * np.sin(t / (50 * bri) + rng.uniform(0, 6))
    D['agc_ku'] = np.round(rng.uniform(8, 14)) + np.round(rng.normal(0, .8, n))
    D['sig0_cal_ku'] = rng.uniform(4, 8) + rng.normal(0, .3, n)
    D['agc_c'] = 20.
    D['scale_factor_ku'] = rng.normal(3, 1, n)
    D['int_path_cor_ku'] = rng.normal(3, .1, n)
    D['uso_cor'] = rng.normal(0, .1, n)
    k = np.arange(n)
    D['isp_coarse_time'] = 1000 + k
    D['isp_fine_time'] = rng.integers(0, 1 << 24, n)
    D['sral_fine_time'] = rng.integers(0, 1 << 24, n)
    D['burst_count_prod'] = k + 1
    D['burst_count_cycle'] = k % 4 + 1
    D['seq_count'] = (k + int(rng.integers(0, 16384))) % 16384
    for f, hi in (('flag_time_status', 2), ('nav_bul_status', 2), ('nav_bul_source', 3), ('oper_instr', 2),
                  ('SAR_mode', 3), ('cl_gain', 2), ('acq_stat', 4), ('dem_eeprom', 3), ('weighting', 2),
                  ('loss_track', 2), ('surf_type', 4)):
        D[f] = rng.integers(0, hi, n)
    D['agccode_ku'] = rng.integers(0, 60, n)
    D['h0_nav_dem'] = rng.integers(1, 1 << 27, n)
    D['h0_applied'] = rng.integers(1, 1 << 27, n)
    D['cor2_nav_dem'] = rng.integers(-3000, 3000, n)
    D['cor2_applied'] = rng.integers(-3000, 3000, n)
    D['dh0'] = rng.integers(-100000, 100000, n)
    D['i_meas'] = np.round(rng.normal(0, amp, (n, P.npul, P.ns)))
    D['q_meas'] = np.round(rng.normal(0, amp, (n, P.npul, P.ns)))
    if dopp:        # echoes with a Doppler spectrum around zero, as the antenna pattern causes
        k = np.fft.fftfreq(P.npul)
        z = np.fft.ifft(np.fft.fft(D['i_meas'] + 1j * D['q_meas'], axis=1) *
                        np.exp(-(k / dopp) ** 2)[None, :, None], axis=1) * 3
        D['i_meas'], D['q_meas'] = np.round(z.real), np.round(z.imag)
    D['gprw'] = rng.uniform(.5, 2, (n, 3, P.ns))
    D['burst_power'] = rng.uniform(.5, 1.5, (n, P.npul))
    D['burst_phase'] = rng.uniform(-1, 1, (n, P.npul))
    r2 = np.random.default_rng([int(D['seq_count'][0]), n])
    if r2.random() < .12:       # gain profiles and powers over several decades
        D['gprw'] = np.maximum(np.round(10. ** r2.uniform(-4, 1, D['gprw'].shape), 4), 1e-4)
        D['burst_power'] = 10. ** r2.uniform(-1, 1, D['burst_power'].shape)
    return D

"""Units and names of the variables that the readers return (CF conventions, README and the manufacturers' manuals)."""
from .core import check

TIME = 'seconds since 1970-01-01 00:00:00', 'Time', 'time'
AMP = 'signal_intensity_from_multibeam_acoustic_doppler_velocity_sensor_in_sea_water'
CORR = 'beam_consistency_indicator_from_multibeam_acoustic_doppler_velocity_profiler_in_sea_water'
PG = 'proportion_of_acceptable_signal_returns_from_acoustic_instrument_in_sea_water'
COMMON = dict(
    time=TIME,
    range=('m', 'Profile Range', None),
    vel=('m s-1', 'Water Velocity', None),
    amp=('1', 'Acoustic Signal Amplitude', AMP),
    c_sound=('m s-1', 'Speed of Sound', 'speed_of_sound_in_sea_water'),
    temp=('degree_C', 'Temperature', 'sea_water_temperature'),
    pressure=('dbar', 'Pressure', 'sea_water_pressure'),
    heading=('degree', 'Heading', 'platform_orientation'),
    pitch=('degree', 'Pitch', 'platform_pitch'),
    roll=('degree', 'Roll', 'platform_roll'),
    orientmat=('1', 'Orientation Matrix', None),
    beam2inst_orientmat=('1', 'Rotation Matrix', None),
    dir=('1', 'Reference Frame', None), dirIMU=('1', 'Reference Frame', None), beam=('1', 'Beam Reference Frame', None),
    earth=('1', 'Earth Reference Frame', None), inst=('1', 'Instrument Reference Frame', None))
NORTEK = dict(
    COMMON, corr=('%', 'Acoustic Signal Correlation', None), batt=('V', 'Battery Voltage', None), error=('1', 'Error Code', None),
    status=('1', 'Status Code', None))
VECTOR = dict(
    NORTEK, accel=('m s-2', 'Acceleration', None), angrt=('rad s-1', 'Angular Velocity', None), mag=('gauss', 'Compass', None),
    orientation_down=('1', 'Orientation of ADV Communication Cable', None))
TRDI = dict(
    COMMON, corr=('1', 'Acoustic Signal Correlation', CORR), prcnt_gd=('%', 'Percent Good', PG), status=('1', 'Status', None),
    number=('1', 'Ensemble Number', 'number_of_observations'), builtin_test_fail=('1', 'Built-In Test Failures', None), depth=('m', 'Depth', 'depth'),
    salinity=('psu', 'Salinity', 'sea_water_salinity'), min_preping_wait=('s', 'Minimum Pre-Ping Wait Time Between Measurements', None),
    heading_std=('degree', 'Heading Standard Deviation', None), pitch_std=('degree', 'Pitch Standard Deviation', None),
    roll_std=('degree', 'Roll Standard Deviation', None), pressure_std=('dbar', 'Pressure Standard Deviation', None),
    dist_bt=('m', 'Bottom Track Measured Depth', None), vel_bt=('m s-1', 'Platform Velocity from Bottom Track', None),
    corr_bt=('1', 'Bottom Track Acoustic Signal Correlation', 0), amp_bt=('1', 'Bottom Track Acoustic Signal Amplitude', 0),
    prcnt_gd_bt=('%', 'Bottom Track Percent Good', 0), vel_sl=('m s-1', 'Surface Layer Water Velocity', None),
    amp_sl=('1', 'Surface Layer Acoustic Signal Amplitude', AMP), corr_sl=('1', 'Surface Layer Acoustic Signal Correlation', CORR),
    prcnt_gd_sl=('%', 'Surface Layer Percent Good', PG), status_sl=('1', 'Surface Layer Status', None), range_sl=('m', 'Profile Range', None),
    alt_dist=('m', 'Altimeter Range', 'altimeter_range'), alt_eval=('dB', 'Altimeter Evaluation Amplitude', None), alt_rssi=('dB', 0, None),
    alt_status=('bit', 'Altimeter Status', None), time_gps=(TIME[0], 0, 'time'), clock_offset_UTC_gps=('s', 'Instrument Clock Offset from UTC', None),
    latitude_gps=('degrees_north', 'Latitude', 'latitude'), longitude_gps=('degrees_east', 'Longitude', 'longitude'),
    avg_speed_gps=('m s-1', 'Average Platform Speed', 'platform_speed_wrt_ground'), avg_dir_gps=('degree', 'Average Platform Direction', 'platform_course'),
    speed_made_good_gps=('m s-1', 'Platform Speed Made Good', 'platform_speed_wrt_ground'),
    dir_made_good_gps=('degree', 'Platform Direction Made Good', 'platform_course'), flags_gps=('bits', 'GPS Flags', None), fix_gps=('1', 'GPS Fix', None),
    n_sat_gps=('count', 'Number of Satellites', None), hdop_gps=('1', 'Horizontal Dilution of Precision', None),
    elevation_gps=('m', 'Elevation above MLLW', None), rtk_age_gps=('s', 'Age of Received Real Time Kinetic Signal', None),
    speed_over_grnd_gps=('m s-1', 'Platform Speed over Ground', 'platform_speed_wrt_ground'),
    dir_over_grnd_gps=('degree', 'Platform Direction over Ground', 'platform_course'), heading_gps=('degree', 'GPS Heading', 'platform_orientation'),
    pitch_gps=('degree', 'GPS Pitch', 'platform_pitch'), roll_gps=('degree', 'GPS Roll', 'platform_roll'), dist_nmea=('m', 'Depth Sounder Range', None))
SIG = dict(
    COMMON, corr=('%', 'Acoustic Signal Correlation', CORR), batt=('V', 'Battery Voltage', 'battery_voltage'), error=('1', 'Error Code', None),
    status=('1', 'Status Code', None), accel=('m s-2', 'Acceleration', None), angrt=('rad s-1', 'Angular Velocity', None), mag=('uT', 'Compass', None),
    quaternions=('1', 'Quaternions', None), q=('1', 'Quaternion Vector Components', None), ensemble=('#', 'Ensemble Number', 'number_of_observations'),
    vel_bt=('m s-1', 'Platform Velocity from Bottom Track', None), dist_bt=('m', 'Bottom Track Measured Depth', None), fom_bt=('1', 'Figure of Merit', None),
    echo=('dB', 'Echo Sounder Acoustic Signal Backscatter', 'acoustic_target_strength_in_sea_water'),
    le_dist_alt=('m', 'Altimeter Range Leading Edge Algorithm', 'altimeter_range'),
    le_quality_alt=('dB', 'Altimeter Quality Indicator Leading Edge Algorithm', None), status_alt=('1', 'Altimeter Status', None),
    ast_dist_alt=('m', 'Altimeter Range Acoustic Surface Tracking', 'altimeter_range'),
    ast_quality_alt=('dB', 'Altimeter Quality Indicator Acoustic Surface Tracking', None),
    ast_offset_time_alt=('s', 'Acoustic Surface Tracking Time Offset to Velocity Ping', None),
    pressure_alt=('dbar', 'Pressure measured during AST ping', 'sea_water_pressure'),
    heading_std=('degree', 'Heading Standard Deviation', None), pitch_std=('degree', 'Pitch Standard Deviation', None),
    roll_std=('degree', 'Roll Standard Deviation', None), press_std=('dbar', 'Pressure Standard Deviation', None),
    temp_clock=('degree_C', 'Internal Clock Temperature', None), temp_press=('degree_C', 'Pressure Sensor Temperature', None),
    xmit_energy=('dB', 'Sound Pressure Level of Acoustic Signal', None), nsamp_alt=('1', 'Number of Altimeter Samples', None),
    dsamp_alt=('m', 'Altimeter Distance between Samples', None), samp_alt=('1', 'Altimeter Samples', None))
TAGS = '_altraw_avg', '_altraw', '_avg', '_b5', '_bt', '_echo'


def entry(table, v):
    if v in table:
        return table[v]
    for t in TAGS:
        if v.endswith(t):
            b = v[:-len(t)]
            return table.get(b + '_alt') or table.get(b) if 'altraw' in t else table.get(b)


def names(ds, table):
    """Each variable listed has the units and names listed (0: any); every profile, vector and matrix variable says what it is."""
    for v in ds.variables:
        e = entry(table, v)
        if e is None:
            continue
        a = ds[v].attrs
        for k, w in zip(('units', 'long_name', 'standard_name'), e):
            if w != 0:
                check(a.get(k) == w, '{} of {}: {!r}, expected {!r}', k, v, a.get(k), w)
        if v in ds.dims:
            check(a.get('coverage_content_type') == 'coordinate', 'coverage_content_type of {}: {}', v, a.get('coverage_content_type'))
        elif ds[v].ndim > 1 and 'orientmat' not in v:
            check(a.get('coverage_content_type') == 'physicalMeasurement', 'coverage_content_type of {}: {}', v, a.get('coverage_content_type'))
    for v, w in dict(x1=range(1, 5), x2=range(1, 5), beam=range(1, 5), q='wxyz', earth='ENU', inst='XYZ').items():
        if v in ds.dims:
            check(v in ds.coords and list(ds[v].values) == list(w)[:ds.sizes[v]], 'labels of {}', v)

"""Frozen parameters of each model: (name, required, default, minimum, maximum, options)."""

PARAMS = dict(
    ask14=[
        ('dist_rup', True, None, None, 300, None),
        ('dist_jb', True, None, None, None, None),
        ('mag', True, None, 3, 8.5, None),
        ('v_s30', True, None, 180, 1000, None),
        ('depth_1_0', False, None, None, None, None),
        ('depth_tor', False, None, None, None, None),
        ('dip', True, None, None, None, None),
        ('dist_crjb', False, 15, None, None, None),
        ('dist_x', False, None, None, None, None),
        ('dist_y0', False, None, None, None, None),
        ('width', False, None, None, None, None),
        ('mechanism', True, None, None, None, ['SS', 'NS', 'RS']),
        ('region', False, 'global', None, None, ['global', 'california', 'china', 'italy', 'japan', 'taiwan']),
        ('vs_source', False, 'measured', None, None, ['measured', 'inferred']),
        ('is_aftershock', False, False, None, None, [True, False]),
        ('on_hanging_wall', False, False, None, None, [True, False]),
    ],
    bssa14=[
        ('mag', True, None, 3, 8.5, None),
        ('depth_1_0', False, None, None, None, None),
        ('dist_jb', True, None, None, 300.0, None),
        ('v_s30', True, None, 150.0, 1500.0, None),
        ('mechanism', False, 'U', None, None, ['U', 'SS', 'NS', 'RS']),
        ('region', False, 'global', None, None, ['global', 'california', 'china', 'italy', 'japan', 'new_zealand', 'taiwan', 'turkey']),
    ],
    cb14=[
        ('depth_1_0', False, None, None, None, None),
        ('depth_2_5', False, None, 0, 10, None),
        ('depth_bor', False, None, None, None, None),
        ('depth_bot', False, 15.0, None, None, None),
        ('depth_hyp', False, None, 0, 20, None),
        ('depth_tor', False, None, 0, 20, None),
        ('dip', True, None, 15, 90, None),
        ('dist_jb', True, None, None, None, None),
        ('dist_rup', True, None, None, 300, None),
        ('dist_x', True, None, None, None, None),
        ('mag', True, None, 3.3, 8.5, None),
        ('v_s30', True, None, 150, 1500, None),
        ('width', False, None, None, None, None),
        ('region', False, 'global', None, None, ['global', 'california', 'japan', 'italy', 'china']),
        ('mechanism', True, None, None, None, ['SS', 'NS', 'RS']),
    ],
    cy14=[
        ('dist_rup', True, None, 0, 300, None),
        ('dist_x', True, None, None, None, None),
        ('dist_jb', True, None, None, None, None),
        ('mag', True, None, 3.5, 8.5, None),
        ('v_s30', True, None, 180, 1500, None),
        ('depth_tor', False, None, 0, 20, None),
        ('depth_1_0', False, None, None, None, None),
        ('dpp_centered', False, 0, None, None, None),
        ('dip', True, None, None, None, None),
        ('mechanism', False, 'U', None, None, ['U', 'SS', 'NS', 'RS']),
        ('on_hanging_wall', False, False, None, None, [True, False]),
        ('region', False, 'california', None, None, ['california', 'china', 'italy', 'japan']),
        ('vs_source', False, 'measured', None, None, ['measured', 'inferred']),
    ],
    i14=[
        ('dist_rup', True, None, None, 150, None),
        ('mag', True, None, 5, None, None),
        ('v_s30', True, None, 450, 1200, None),
        ('mechanism', True, 'SS', None, None, ['SS', 'RS']),
    ],
    asb14=[
        ('dist_jb', False, None, 0, 200, None),
        ('dist_epi', False, None, 0, 200, None),
        ('dist_hyp', False, None, 0, 200, None),
        ('mag', True, None, 4, 8, None),
        ('v_s30', True, None, 150, 1200, None),
        ('mechanism', True, None, None, None, ['SS', 'NS', 'RS']),
    ],
    dbc14=[
        ('dist_jb', True, None, 5, 200, None),
        ('mag', True, None, 4, 7, None),
        ('v_s30', True, None, 200, 800, None),
        ('depth_hyp', True, None, 0, 25, None),
        ('mechanism', True, None, None, None, ['SS', 'NS', 'RS']),
    ],
    ab06=[
        ('mag', True, None, None, None, None),
        ('dist_rup', True, None, None, None, None),
        ('v_s30', True, None, None, None, None),
    ],
    c03=[
        ('mag', True, None, 5.0, 8.2, None),
        ('dist_rup', True, None, None, 1000.0, None),
    ],
    pea11=[
        ('mag', True, None, 5, 8, None),
        ('dist_rup', True, None, None, 1000, None),
    ],
    tp05=[
        ('dist_rup', True, None, None, 1000, None),
        ('mag', True, None, 5.0, 8.2, None),
    ],
    aga16=[
        ('mag', True, None, 3, 8.5, None),
        ('dist_rup', False, None, None, None, None),
        ('dist_hyp', False, None, None, None, None),
        ('depth_hyp', False, None, None, None, None),
        ('v_s30', True, None, 150.0, 1500.0, None),
        ('event_type', True, None, None, None, ['interface', 'intraslab']),
        ('tectonic_region', False, 'unknown', None, None, ['forearc', 'backarc', 'unknown']),
    ],
    pnnl14=[
        ('mag', True, None, 3, 8.5, None),
        ('dist_rup', False, None, None, None, None),
        ('v_s30', True, None, 150.0, 1500.0, None),
        ('event_type', True, None, None, None, ['interface', 'intraslab']),
    ],
    ga11=[
        ('dist_rup', True, None, None, 200, None),
        ('mag', True, None, 5, 8.5, None),
        ('v_s30', True, None, 450, 1200, None),
        ('pga_ref', True, None, 0.001, 10, None),
        ('mechanism', True, None, None, None, ['SS', 'NS', 'RS']),
    ],
    ba19=[
        ('dist_rup', True, None, 0, 300, None),
        ('mag', True, None, 3.0, 8.0, None),
        ('v_s30', True, None, 180, 1500, None),
        ('depth_tor', True, None, 0, 20, None),
        ('depth_1_0', False, None, None, None, None),
        ('mechanism', False, 'SS', None, None, ['SS', 'NS', 'RS']),
    ],
    as96=[
        ('mag', True, None, 4, 7.5, None),
        ('dist_rup', True, None, 0, 250, None),
        ('site_cond', True, None, None, None, ['soil', 'rock']),
    ],
    ks06=[
        ('mag', True, None, 5, 7.6, None),
        ('dist_rup', True, None, 0, 200, None),
        ('v_s30', True, None, 200, 1000, None),
    ],
    as16=[
        ('mag', True, None, 3, 7.9, None),
        ('dist_rup', True, None, 0, 200, None),
        ('v_s30', True, None, 200, 1000, None),
        ('mechanism', True, None, None, None, ['SS', 'NS', 'RS']),
        ('depth_1_0', False, None, None, None, None),
    ],
    pr23=[
        ('mag', True, None, 4.0, 8.0, None),
        ('dist_rup', True, None, 0, 300, None),
        ('v_s30', True, None, 150, 2000, None),
    ],
    pr24=[
        ('mag', True, None, 4.5, 8.5, None),
        ('dist_rup', True, None, 0, 300, None),
        ('v_s30', True, None, 150, 2000, None),
        ('event_type', True, None, None, None, ['interface', 'slab']),
        ('region', True, None, None, None, ['Japan', 'New Zealand', 'South America', 'Taiwan']),
    ],
)

"""ganglion cell densities (cells/deg2) over eccentricity (degrees), per meridian (temporal, superior, nasal, inferior)

measurements of Curcio & Allen 1990 as tabulated by Watson 2014 (zeros removed)"""
TABLE = [
    [(0.1859392337, 44.04486725),
     (0.3717178309, 93.27509002),
     (0.5573316409, 198.7869865),
     (0.7427764978, 345.1420655),
     (1.113142653, 1016.492167),
     (1.482782959, 1460.433332),
     (1.851664478, 1828.125251),
     (2.219755294, 1960.658461),
     (2.587025543, 2085.475118),
     (2.95344915, 2217.276782),
     (3.319006793, 2342.46408),
     (3.683691024, 2374.660331),
     (5.496092431, 2069.255696),
     (7.309190493, 1282.5353),
     (9.142240526, 751.4476414),
     (10.99476597, 492.4300693),
     (18.5225038, 244.4545969),
     (22.31272042, 226.0310408),
     (26.0978579, 209.032512),
     (29.87030849, 181.4036386),
     (33.629977, 143.7728154),
     (37.38428195, 110.3396735),
     (41.14815608, 90.36839738),
     (44.94404664, 79.71178906),
     (48.80191581, 69.93202135),
     (52.75924101, 61.47100679),
     (56.86101523, 53.48768791),
     (61.15974732, 46.62792068),
     (65.71546225, 38.43392515),
     (70.59570129, 30.49834534),
     (75.87552206, 23.54151243),
     (81.63749845, 15.28098632),
     (87.97172046, 10.73296006)],
    [(0.5502339632, 28.58808238),
     (0.7335011377, 119.3758266),
     (1.099870406, 700.132481),
     (1.466081986, 1375.16237),
     (1.832214903, 1848.00207),
     (2.198350719, 2044.233823),
     (2.564570904, 2092.670334),
     (2.930954223, 2098.755366),
     (3.297574365, 2112.37971),
     (3.664498031, 2039.0232),
     (5.505390523, 1387.223076),
     (7.358901172, 871.9981716),
     (9.224896045, 590.37182),
     (11.10126368, 431.9496814),
     (14.87434039, 241.0785461),
     (18.65817822, 156.7319547),
     (22.4383558, 114.038527),
     (26.20747856, 97.00162933),
     (29.96551033, 75.52950204),
     (33.71986759, 60.03574671),
     (37.48545311, 43.94237419),
     (41.28467078, 31.26095732),
     (45.14743388, 26.46259677),
     (49.11117056, 23.9019162),
     (53.2208281, 21.38787395),
     (57.52887615, 18.80405892),
     (62.09530938, 15.78936433),
     (66.98764894, 12.10655111),
     (72.28094308, 8.770651414),
     (78.0577664, 7.352182662),
     (84.40821806, 5.382897764)],
    [(0.1860957402, 13.64222486),
     (0.3723438821, 49.01822549),
     (0.5587403494, 119.4298084),
     (0.7452810972, 303.3539776),
     (1.118779427, 820.2365888),
     (1.492807224, 1250.551904),
     (1.867333463, 1593.832907),
     (2.24232777, 1692.332668),
     (2.617760452, 1806.492944),
     (2.993602513, 1926.51992),
     (3.369825664, 2012.187746),
     (3.746402337, 2015.001977),
     (5.633674677, 1707.475944),
     (7.526071665, 1210.769543),
     (9.420978792, 833.6776208),
     (11.31624908, 586.3104294),
     (15.10163511, 283.2349068),
     (18.87443426, 165.8475893),
     (22.63436213, 115.5948777),
     (26.38864741, 76.95379323),
     (30.15203274, 55.0099075),
     (33.94677525, 41.8629871),
     (37.80264704, 30.82086468),
     (41.75693549, 24.99016095),
     (45.85444372, 20.11011324),
     (50.1474908, 16.84096839),
     (54.69591205, 12.93176626),
     (59.56705913, 10.02640515),
     (64.83580004, 8.62649206)],
    [(0.1835809386, 37.39152024),
     (0.3672580363, 90.12699185),
     (0.5510372355, 249.4371211),
     (0.7349238911, 493.21083),
     (1.103038083, 1082.453292),
     (1.471631995, 1610.275892),
     (1.840728417, 1983.308965),
     (2.210342314, 2031.54221),
     (2.580481706, 2069.678913),
     (2.951148587, 2105.454751),
     (3.322339813, 2100.948308),
     (3.694047938, 1988.592557),
     (5.559867472, 1348.208627),
     (7.436093406, 727.5067813),
     (9.320030409, 490.5855897),
     (11.20900213, 312.9298606),
     (14.99280703, 144.1646454),
     (18.77304102, 94.74293408),
     (22.54225312, 71.35548047),
     (26.30034637, 53.40502366),
     (30.05467462, 41.78054273),
     (33.82007722, 33.18496968),
     (37.61889448, 26.21997106),
     (41.48097616, 21.84238246),
     (45.44368717, 18.88391804),
     (49.55191187, 17.81137621),
     (53.85805736, 16.65494966),
     (58.42205601, 14.23406586),
     (63.31136689, 10.22203944),
     (68.60097614, 5.971059087),
     (74.37339615, 2.808517511),
     (80.71866346, 0.6778900973)],
]

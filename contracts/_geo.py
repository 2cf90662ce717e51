"""The GeoTIFF keys (OGC 19-008r4, Annex B and GeoTIFF 1.0), written down independently of /repo: code, field, value type."""
KEYS = """1024 ModelType model_type u16
1025 RasterType raster_type u16
1026 Citation citation string
2048 GeographicType geographic_type u16
2049 GeogCitation geog_citation string
2050 GeogGeodeticDatum geog_geodetic_datum u16
2051 GeogPrimeMeridian geog_prime_meridian u16
2052 GeogLinearUnits geog_linear_units u16
2053 GeogLinearUnitSize geog_linear_unit_size f64
2054 GeogAngularUnits geog_angular_units u16
2055 GeogAngularUnitSize geog_angular_unit_size f64
2056 GeogEllipsoid geog_ellipsoid u16
2057 GeogSemiMajorAxis geog_semi_major_axis f64
2058 GeogSemiMinorAxis geog_semi_minor_axis f64
2059 GeogInvFlattening geog_inv_flattening f64
2060 GeogAzimuthUnits geog_azimuth_units u16
2061 GeogPrimeMeridianLong geog_prime_meridian_long f64
3072 ProjectedType projected_type u16
3073 ProjCitation proj_citation string
3074 Projection projection u16
3075 ProjCoordTrans proj_coord_trans u16
3076 ProjLinearUnits proj_linear_units u16
3077 ProjLinearUnitSize proj_linear_unit_size f64
3078 ProjStdParallel1 proj_std_parallel1 f64
3079 ProjStdParallel2 proj_std_parallel2 f64
3080 ProjNatOriginLong proj_nat_origin_long f64
3081 ProjNatOriginLat proj_nat_origin_lat f64
3082 ProjFalseEasting proj_false_easting f64
3083 ProjFalseNorthing proj_false_northing f64
3084 ProjFalseOriginLong proj_false_origin_long f64
3085 ProjFalseOriginLat proj_false_origin_lat f64
3086 ProjFalseOriginEasting proj_false_origin_easting f64
3087 ProjFalseOriginNorthing proj_false_origin_northing f64
3088 ProjCenterLong proj_center_long f64
3089 ProjCenterLat proj_center_lat f64
3090 ProjCenterEasting proj_center_easting f64
3091 ProjCenterNorthing proj_center_northing f64
3092 ProjScaleAtNatOrigin proj_scale_at_nat_origin f64
3093 ProjScaleAtCenter proj_scale_at_center f64
3094 ProjAzimuthAngle proj_azimuth_angle f64
3095 ProjStraightVertPoleLong proj_straight_vert_pole_long f64
4096 Vertical vertical u16
4097 VerticalCitation vertical_citation string
4098 VerticalDatum vertical_datum u16
4099 VerticalUnits vertical_units u16"""
KEYS = [l.split() for l in KEYS.split("\n")]

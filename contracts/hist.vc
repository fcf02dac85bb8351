@opt closed
@opt units accts chain math decimal
@use accts.vc
@opt assume dec mth fee pst qst tst mtk mps mfe dep wdr ipl lib xp mbm
@include hist_spec.rs

@opt closed
@opt units hist accts chain math decimal
@use hist.vc
@include solv_spec.rs

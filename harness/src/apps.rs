//! Generated applications (see build.rs, apps.dsl).
#![allow(dead_code, non_upper_case_globals, non_snake_case, clippy::all)]
use crate::model::{AppModel, FieldM, VariantM};
use crate::svc::{entry, entry_new, AppEntry};
use crate::types::*;
use hyperdrive::body::{HtmlForm, Json};
use hyperdrive::FromRequest;

include!(concat!(env!("OUT_DIR"), "/apps.rs"));

use std::collections::{HashMap, HashSet};
pub assume_specification<T: Clone> [<T as std::borrow::ToOwned>::to_owned] (t: &T) -> (r: T) ensures r == *t;
broadcast use vstd::std_specs::hash::group_hash_axioms;
pub broadcast axiom fn hash_model_string() ensures #[trigger] vstd::std_specs::hash::obeys_key_model::<String>();
broadcast use hash_model_string;

use crate::runner::Property;

pub mod annot;
pub mod decrypt;
pub mod documents;
pub mod errors;
pub mod frames;
pub mod headers;
pub mod legacy;
pub mod link;
pub mod lowlevel;
pub mod order;
pub mod output;
pub mod records;
pub mod roundtrip;
pub mod security;
pub mod surfaces;
pub mod total;
pub mod xml;

pub fn all() -> Vec<Property> {
    use frames as f;
    use output as o;
    use records as r;
    use surfaces as u;
    vec![
        total::c01(), f::c02(), f::c03(), f::c04(), r::c05(), r::c06(), r::c07(), r::c08(), r::c09(), r::c10(), security::c11(), security::c12(), o::c13(), o::c14(), o::c15(), xml::c16(), annot::c17(), o::c18(), r::c19(), u::c20(), u::c21(), u::c22(), r::c24(), lowlevel::c23(), lowlevel::c25(),
        f::c26(), u::c27(), o::c28(), annot::c29(), u::c30(), lowlevel::c31(), f::c32(), legacy::c33(), errors::c34(), errors::c35_property(), link::c36(), roundtrip::c37_property(), decrypt::c38_property(), headers::c39_property(), documents::c40_property(), order::c41_property(),
    ]
}

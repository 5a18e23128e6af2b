//! Orbit mean-elements messages: `Elements` deserialized from a map in which
//! one field holds a chosen value of any kind.
use serde::de::value::StrDeserializer;
use serde::de::{self, DeserializeSeed, Deserializer, IntoDeserializer, MapAccess, Visitor};
use serde::Deserialize;

#[derive(Debug)]
pub struct Failure;
impl core::fmt::Display for Failure {
    fn fmt(&self, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        Ok(())
    }
}
impl std::error::Error for Failure {}
impl de::Error for Failure {
    fn custom<T: core::fmt::Display>(_: T) -> Self {
        Failure
    }
    fn invalid_type(_: de::Unexpected, _: &dyn de::Expected) -> Self {
        Failure
    }
    fn invalid_value(_: de::Unexpected, _: &dyn de::Expected) -> Self {
        Failure
    }
    fn invalid_length(_: usize, _: &dyn de::Expected) -> Self {
        Failure
    }
    fn unknown_variant(_: &str, _: &'static [&'static str]) -> Self {
        Failure
    }
    fn unknown_field(_: &str, _: &'static [&'static str]) -> Self {
        Failure
    }
    fn missing_field(_: &'static str) -> Self {
        Failure
    }
    fn duplicate_field(_: &'static str) -> Self {
        Failure
    }
}

pub const KEYS: [&str; 15] = [
    "NORAD_CAT_ID", "ELEMENT_SET_NO", "REV_AT_EPOCH", "EPHEMERIS_TYPE",
    "MEAN_MOTION_DOT", "MEAN_MOTION_DDOT", "BSTAR", "INCLINATION", "RA_OF_ASC_NODE",
    "ECCENTRICITY", "ARG_OF_PERICENTER", "MEAN_ANOMALY", "MEAN_MOTION",
    "CLASSIFICATION_TYPE", "EPOCH",
];

#[derive(Clone, Copy)]
pub struct Item<'a> {
    kind: u32,
    int: u64,
    float: f64,
    text: &'a str,
}

struct Nothing;
impl<'de> de::SeqAccess<'de> for Nothing {
    type Error = Failure;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, _: T) -> Result<Option<T::Value>, Failure> {
        Ok(None)
    }
}
impl<'de> MapAccess<'de> for Nothing {
    type Error = Failure;
    fn next_key_seed<T: DeserializeSeed<'de>>(&mut self, _: T) -> Result<Option<T::Value>, Failure> {
        Ok(None)
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, _: T) -> Result<T::Value, Failure> {
        Err(Failure)
    }
}

impl<'de, 'a> Deserializer<'de> for Item<'a> {
    type Error = Failure;
    /// kinds as JSON parsers report them: unsigned, negative, fractional, text, truth value, null, list, object
    fn deserialize_any<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Failure> {
        match self.kind {
            0 => visitor.visit_u64(self.int),
            1 => visitor.visit_i64(self.int as i64),
            2 => visitor.visit_f64(self.float),
            3 => visitor.visit_str(self.text),
            4 => visitor.visit_bool(self.int == 1),
            5 => visitor.visit_unit(),
            6 => visitor.visit_seq(Nothing),
            _ => visitor.visit_map(Nothing),
        }
    }
    fn deserialize_option<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Failure> {
        match self.kind {
            5 => visitor.visit_none(),
            _ => visitor.visit_some(self),
        }
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, visitor: V) -> Result<V::Value, Failure> {
        visitor.visit_newtype_struct(self)
    }
    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], visitor: V) -> Result<V::Value, Failure> {
        let text: StrDeserializer<'_, Failure> = self.text.into_deserializer();
        visitor.visit_enum(text)
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string
        bytes byte_buf unit unit_struct seq tuple tuple_struct map struct identifier ignored_any
    }
}

pub struct Message<'a> {
    field: usize,
    item: Item<'a>,
    next: usize,
}

impl<'de, 'a> MapAccess<'de> for Message<'a> {
    type Error = Failure;
    fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, seed: K) -> Result<Option<K::Value>, Failure> {
        if self.next == KEYS.len() {
            return Ok(None);
        }
        let key: StrDeserializer<'_, Failure> = KEYS[self.next].into_deserializer();
        seed.deserialize(key).map(Some)
    }
    fn next_value_seed<V: DeserializeSeed<'de>>(&mut self, seed: V) -> Result<V::Value, Failure> {
        let k = self.next;
        self.next += 1;
        if k == self.field {
            return seed.deserialize(self.item);
        }
        seed.deserialize(Item {
            kind: if k >= 13 { 3 } else { 0 },
            int: 100 + k as u64,
            float: 0.0,
            text: if k == 13 { "U" } else { "2020-07-12T01:19:07.402656" },
        })
    }
}

pub struct Whole<'a>(Message<'a>);
impl<'de, 'a> Deserializer<'de> for Whole<'a> {
    type Error = Failure;
    fn deserialize_any<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Failure> {
        visitor.visit_map(self.0)
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string option newtype_struct enum
        bytes byte_buf unit unit_struct seq tuple tuple_struct map struct identifier ignored_any
    }
}

/// 0 accepted (numeric fields in order of `KEYS`), 1 rejected
#[no_mangle]
pub unsafe extern "C" fn impl_omm(
    field: usize, kind: u32, int: u64, float: f64, p: *const u8, n: usize, ints: &mut [u64; 4], floats: &mut [f64; 9],
) -> u32 {
    let text = core::str::from_utf8_unchecked(core::slice::from_raw_parts(p, n));
    match sgp4::Elements::deserialize(Whole(Message { field, item: Item { kind, int, float, text }, next: 0 })) {
        Err(_) => 1,
        Ok(e) => {
            *ints = [e.norad_id, e.element_set_number, e.revolution_number, e.ephemeris_type as u64];
            *floats = [
                e.mean_motion_dot, e.mean_motion_ddot, e.drag_term, e.inclination, e.right_ascension,
                e.eccentricity, e.argument_of_perigee, e.mean_anomaly, e.mean_motion,
            ];
            core::mem::forget(e);
            0
        }
    }
}

pub struct Serializer {
    output: String,
    level: usize,
}

impl Serializer {
    const fn nested(&self) -> bool {
        self.level > TOP_LEVEL
    }

    fn put(&mut self, text: &str) -> &mut Self {
        self.output.push_str(text);
        self
    }
}

/// A container being written.
pub struct Compound<'a> {
    ser: &'a mut Serializer,
    separator: &'static str,
    assign: &'static str,
    close: &'static str,
    first: bool,
}

impl<'a> Compound<'a> {
    fn list(ser: &'a mut Serializer, close: &'static str) -> Self {
        Self { ser, separator: ",", assign: "", close, first: true }
    }

    fn record(ser: &'a mut Serializer, close: &'static str) -> Self {
        Self { ser, separator: ",", assign: ":", close, first: true }
    }

    fn members(ser: &'a mut Serializer) -> Self {
        if ser.nested() {
            Self::record(ser, "}")
        } else {
            Self { ser, separator: "&", assign: "=", close: "", first: true }
        }
    }

    fn separate(&mut self) {
        if self.first {
            self.first = false;
        } else {
            self.ser.put(self.separator);
        }
    }

    fn element<T: ?Sized + Serialize>(&mut self, value: &T) -> Result<()> {
        self.separate();
        value.serialize(&mut *self.ser)
    }

    fn member<T: ?Sized + Serialize>(&mut self, key: &'static str, value: &T) -> Result<()> {
        self.separate();
        key.serialize(&mut *self.ser)?;
        self.ser.put(self.assign);
        value.serialize(&mut *self.ser)
    }

    fn finish(self) -> Result<()> {
        self.ser.put(self.close).level -= 1;
        Ok(())
    }
}

impl<'a> ser::Serializer for &'a mut Serializer {
    type Error = Error;
    type Ok = ();
    type SerializeMap = Compound<'a>;
    type SerializeSeq = Compound<'a>;
    type SerializeStruct = Compound<'a>;
    type SerializeStructVariant = Compound<'a>;
    type SerializeTuple = Compound<'a>;
    type SerializeTupleStruct = Compound<'a>;
    type SerializeTupleVariant = Compound<'a>;

    fn serialize_bool(self, v: bool) -> Result<()> {
        self.output += if v { "true" } else { "false" };
        Ok(())
    }

    // JSON does not distinguish between different sizes of integers.
    fn serialize_i8(self, v: i8) -> Result<()> {
        self.serialize_i64(i64::from(v))
    }

    fn serialize_i16(self, v: i16) -> Result<()> {
        self.serialize_i64(i64::from(v))
    }

    fn serialize_i32(self, v: i32) -> Result<()> {
        self.serialize_i64(i64::from(v))
    }

    // Not particularly efficient but this is example code anyway. A more
    // performant approach would be to use the `itoa` crate.
    fn serialize_i64(self, v: i64) -> Result<()> {
        self.output += &v.to_string();
        Ok(())
    }

    fn serialize_u8(self, v: u8) -> Result<()> {
        self.serialize_u64(u64::from(v))
    }

    fn serialize_u16(self, v: u16) -> Result<()> {
        self.serialize_u64(u64::from(v))
    }

    fn serialize_u32(self, v: u32) -> Result<()> {
        self.serialize_u64(u64::from(v))
    }

    fn serialize_u64(self, v: u64) -> Result<()> {
        self.output += &v.to_string();
        Ok(())
    }

    fn serialize_f32(self, v: f32) -> Result<()> {
        self.serialize_f64(f64::from(v))
    }

    fn serialize_f64(self, v: f64) -> Result<()> {
        self.output += &v.to_string();
        Ok(())
    }

    fn serialize_char(self, v: char) -> Result<()> {
        self.serialize_str(&v.to_string())
    }

    fn serialize_str(self, v: &str) -> Result<()> {
        if self.level > TOP_LEVEL {
            // a string within a nested value is a JSON string
            let json = serde_json::to_string(v).map_err(|e| Error::Message(e.to_string()))?;
            self.output += &utf8_percent_encode(&json, CONTENT).to_string();
        } else {
            self.output += &utf8_percent_encode(v, CONTENT).to_string();
        }
        Ok(())
    }

    // Serialize a byte array as an array of bytes.
    fn serialize_bytes(self, v: &[u8]) -> Result<()> {
        use serde::ser::SerializeSeq;
        let mut seq = self.serialize_seq(Some(v.len()))?;
        for byte in v {
            seq.serialize_element(byte)?;
        }
        seq.end()
    }

    // An absent optional is represented as the JSON `null`.
    fn serialize_none(self) -> Result<()> {
        self.serialize_unit()
    }

    // A present optional is represented as just the contained value. Note that
    // this is a lossy representation. For example the values `Some(())` and
    // `None` both serialize as just `null`.
    fn serialize_some<T>(self, value: &T) -> Result<()>
    where
        T: ?Sized + Serialize,
    {
        value.serialize(self)
    }

    // In Serde, unit means an anonymous value containing no data. Map this to
    // JSON as `null`.
    fn serialize_unit(self) -> Result<()> {
        self.output += "null";
        Ok(())
    }

    // Unit struct means a named value containing no data. Again, since there is
    // no data, map this to JSON as `null`.
    fn serialize_unit_struct(self, _name: &'static str) -> Result<()> {
        self.serialize_unit()
    }

    // When serializing a unit variant (or any other kind of variant), formats
    // can choose whether to keep track of it by index or by name.
    fn serialize_unit_variant(
        self, _name: &'static str, _variant_index: u32, variant: &'static str,
    ) -> Result<()> {
        self.serialize_str(variant)
    }

    // Treat newtype structs as insignificant wrappers around the data they contain.
    fn serialize_newtype_struct<T>(self, _name: &'static str, value: &T) -> Result<()>
    where
        T: ?Sized + Serialize,
    {
        value.serialize(self)
    }

    fn serialize_newtype_variant<T>(
        self, _name: &'static str, _variant_index: u32, variant: &'static str, value: &T,
    ) -> Result<()>
    where
        T: ?Sized + Serialize,
    {
        self.level += 1;
        let (open, assign, close) = if self.nested() { ("{", ":", "}") } else { ("", "=", "") };
        self.put(open);
        variant.serialize(&mut *self)?;
        self.put(assign);
        value.serialize(&mut *self)?;
        self.put(close);
        self.level -= 1;
        Ok(())
    }

    fn serialize_seq(self, _len: Option<usize>) -> Result<Self::SerializeSeq> {
        self.level += 1;
        Ok(Compound::list(self.put("["), "]"))
    }

    fn serialize_tuple(self, len: usize) -> Result<Self::SerializeTuple> {
        self.serialize_seq(Some(len))
    }

    fn serialize_tuple_struct(
        self, _name: &'static str, len: usize,
    ) -> Result<Self::SerializeTupleStruct> {
        self.serialize_seq(Some(len))
    }

    fn serialize_tuple_variant(
        self, _name: &'static str, _variant_index: u32, variant: &'static str, _len: usize,
    ) -> Result<Self::SerializeTupleVariant> {
        self.level += 1;
        let nested = self.nested();
        if nested {
            self.put("{");
        }
        variant.serialize(&mut *self)?;
        self.put(if nested { ":[" } else { "=[" });
        Ok(Compound::list(self, if nested { "]}" } else { "]" }))
    }

    fn serialize_map(self, _len: Option<usize>) -> Result<Self::SerializeMap> {
        self.level += 1;
        if self.nested() {
            self.put("{");
        }
        Ok(Compound::members(self))
    }

    fn serialize_struct(self, _name: &'static str, len: usize) -> Result<Self::SerializeStruct> {
        self.serialize_map(Some(len))
    }

    fn serialize_struct_variant(
        self, _name: &'static str, _variant_index: u32, variant: &'static str, _len: usize,
    ) -> Result<Self::SerializeStructVariant> {
        self.level += 1;
        let nested = self.nested();
        if nested {
            self.put("{");
        }
        variant.serialize(&mut *self)?;
        self.put(if nested { ":{" } else { "={" });
        Ok(Compound::record(self, if nested { "}}" } else { "}" }))
    }
}

impl ser::SerializeSeq for Compound<'_> {
    type Error = Error;
    type Ok = ();

    fn serialize_element<T: ?Sized + Serialize>(&mut self, value: &T) -> Result<()> {
        self.element(value)
    }

    fn end(self) -> Result<()> {
        self.finish()
    }
}

impl ser::SerializeTuple for Compound<'_> {
    type Error = Error;
    type Ok = ();

    fn serialize_element<T: ?Sized + Serialize>(&mut self, value: &T) -> Result<()> {
        self.element(value)
    }

    fn end(self) -> Result<()> {
        self.finish()
    }
}

impl ser::SerializeTupleStruct for Compound<'_> {
    type Error = Error;
    type Ok = ();

    fn serialize_field<T: ?Sized + Serialize>(&mut self, value: &T) -> Result<()> {
        self.element(value)
    }

    fn end(self) -> Result<()> {
        self.finish()
    }
}

impl ser::SerializeTupleVariant for Compound<'_> {
    type Error = Error;
    type Ok = ();

    fn serialize_field<T: ?Sized + Serialize>(&mut self, value: &T) -> Result<()> {
        self.element(value)
    }

    fn end(self) -> Result<()> {
        self.finish()
    }
}

impl ser::SerializeMap for Compound<'_> {
    type Error = Error;
    type Ok = ();

    fn serialize_key<T: ?Sized + Serialize>(&mut self, key: &T) -> Result<()> {
        self.element(key)
    }

    fn serialize_value<T: ?Sized + Serialize>(&mut self, value: &T) -> Result<()> {
        self.ser.put(self.assign);
        value.serialize(&mut *self.ser)
    }

    fn end(self) -> Result<()> {
        self.finish()
    }
}

impl ser::SerializeStruct for Compound<'_> {
    type Error = Error;
    type Ok = ();

    fn serialize_field<T: ?Sized + Serialize>(
        &mut self, key: &'static str, value: &T,
    ) -> Result<()> {
        self.member(key, value)
    }

    fn end(self) -> Result<()> {
        self.finish()
    }
}

impl ser::SerializeStructVariant for Compound<'_> {
    type Error = Error;
    type Ok = ();

    fn serialize_field<T: ?Sized + Serialize>(
        &mut self, key: &'static str, value: &T,
    ) -> Result<()> {
        self.member(key, value)
    }

    fn end(self) -> Result<()> {
        self.finish()
    }
}


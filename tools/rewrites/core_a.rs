impl<T: Default> Default for Quota<T> {
    fn default() -> Self {
        Self::One(Default::default())
    }
}

impl<T: Clone + Default + PartialEq> Quota<T> {
    /// Returns true if the set holds a single value.
    pub const fn is_one(&self) -> bool {
        matches!(self, Self::One(_))
    }

    /// Returns true if the set holds a list of values.
    pub const fn is_many(&self) -> bool {
        !self.is_one()
    }

    /// Adds an item to the set.
    pub fn add(&mut self, item: T) {
        let mut items = match std::mem::take(self) {
            Self::One(one) => vec![one],
            Self::Many(many) => many,
        };
        items.push(item);
        *self = Self::Many(items);
    }

    fn items(&self) -> &[T] {
        match self {
            Self::One(one) => std::slice::from_ref(one),
            Self::Many(many) => many.as_slice(),
        }
    }

    /// Returns the number of items in the set.
    pub fn len(&self) -> usize {
        self.items().len()
    }

    /// Returns true if the set is empty.
    pub fn is_empty(&self) -> bool {
        self.items().is_empty()
    }
}

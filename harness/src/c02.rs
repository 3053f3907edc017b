//! C02: components.
component_types!(accept);

//! C01: language tags.
tag_type!(accept);

pub mod data;
pub mod ego;
pub mod fw;
pub mod gpref;
pub mod la;
pub mod props;

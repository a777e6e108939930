//! Harnesses over the real tls-core with its real dependencies.
pub mod codes;
pub mod frag;
pub mod hs;
pub mod join;
pub mod kx;
pub mod names;
pub mod small;
pub mod wire;

#[cfg(not(kani))]
pub fn replay_main() -> i32 {
    vk::replay_args(&[("codes", codes::HARNESSES), ("frag", frag::HARNESSES), ("hs::cext::read", hs::cext::read::HARNESSES), ("hs::cext::write", hs::cext::write::HARNESSES), ("hs::cext::bad", hs::cext::bad::HARNESSES), ("hs::cext::sni", hs::cext::sni::HARNESSES), ("hs::cext::sni::plain", hs::cext::sni::plain::HARNESSES), ("hs::cext::plain", hs::cext::plain::HARNESSES), ("hs::sext::read", hs::sext::read::HARNESSES), ("hs::sext::write", hs::sext::write::HARNESSES), ("hs::sext::wrong", hs::sext::wrong::HARNESSES), ("hs::body::read", hs::body::read::HARNESSES), ("hs::body::write", hs::body::write::HARNESSES), ("hs::body::wrong", hs::body::wrong::HARNESSES), ("hs::hello::read", hs::hello::read::HARNESSES), ("hs::hello::write", hs::hello::write::HARNESSES), ("hs::hello::wrong", hs::hello::wrong::HARNESSES), ("hs::other::read", hs::other::read::HARNESSES), ("hs::other::write", hs::other::write::HARNESSES), ("hs::other::wrong", hs::other::wrong::HARNESSES), ("hs::list::dups", hs::list::dups::HARNESSES), ("hs::list::find", hs::list::find::HARNESSES), ("hs::other::top", hs::other::top::HARNESSES), ("join", join::HARNESSES), ("kx", kx::HARNESSES), ("kx::bad", kx::bad::HARNESSES), ("kx::m", kx::m::HARNESSES), ("names", names::HARNESSES), ("names::keep", names::keep::HARNESSES), ("names::set", names::set::HARNESSES), ("small", small::HARNESSES), ("wire", wire::HARNESSES)])
}

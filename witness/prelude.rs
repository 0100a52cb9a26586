#![allow(unused, dead_code)]
use async_trait::async_trait;
use obsidian::context::Context;
use obsidian::middleware::Middleware;
use obsidian::router::{Handler, Router};
use obsidian::{App, ContextResult, EndpointExecutor};
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use std::sync::{Arc, Mutex};
fn clones<T: Clone>() {}
fn copies<T: Copy>() {}
fn shared<T: Send + Sync>() {}
fn stat<T: 'static>() {}
async fn plain(ctx: Context) -> ContextResult { ctx.build("x").ok() }
async fn pause() {}

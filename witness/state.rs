//: App
#[derive(Clone)]
struct Good(Arc<Mutex<u8>>);
async fn good() {
    let mut app: App<Good> = App::new();
    app.set_app_state(Good(Arc::new(Mutex::new(1))));
    app.get("/a", plain);
    let mut text: App<String> = App::default();
    text.set_app_state(String::new());
    app.listen(1).await;
}
fn bad_rc() { //~ rc E0277,E0599
    let mut app: App<Rc<u8>> = App::new(); //~ rc E0277,E0599
    app.set_app_state(Rc::new(1)); //~ rc E0277,E0599
} //~ rc E0277,E0599
fn bad_cell() { //~ cell E0277,E0599
    let mut app: App<Cell<u8>> = App::new(); //~ cell E0277,E0599
    app.set_app_state(Cell::new(1)); //~ cell E0277,E0599
} //~ cell E0277,E0599
fn bad_refcell() { //~ refcell E0277,E0599
    let mut app: App<Arc<RefCell<u8>>> = App::new(); //~ refcell E0277,E0599
    app.set_app_state(Arc::new(RefCell::new(1))); //~ refcell E0277,E0599
} //~ refcell E0277,E0599
fn bad_mutex() { //~ mutex E0277,E0599
    let mut app: App<Mutex<u8>> = App::new(); //~ mutex E0277,E0599
    app.set_app_state(Mutex::new(1)); //~ mutex E0277,E0599
} //~ mutex E0277,E0599
fn bad_ptr() { //~ ptr E0277,E0599
    let mut app: App<*const u8> = App::new(); //~ ptr E0277,E0599
    app.set_app_state(std::ptr::null()); //~ ptr E0277,E0599
} //~ ptr E0277,E0599
fn borrowed<'x>(text: &'x str) {
    let mut app: App<&'static str> = App::new();
    app.set_app_state("x");
    let mut short: App<&'x str> = App::new(); //~ borrowed -,E0478,E0491,E0310,E0759,E0521,E0597
    short.set_app_state(text); //~ borrowed -,E0478,E0491,E0310,E0759,E0521,E0597
}

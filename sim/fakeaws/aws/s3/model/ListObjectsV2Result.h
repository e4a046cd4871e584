#pragma once
#include <aws/fake.h>

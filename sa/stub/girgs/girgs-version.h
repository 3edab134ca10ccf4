#pragma once
// analysis stand-in for the header generated by the build
#define GIRGS_PROJECT_NAME "girgs"
#define GIRGS_PROJECT_DESCRIPTION "description"
#define GIRGS_AUTHOR_ORGANIZATION "organization"
#define GIRGS_AUTHOR_DOMAIN "domain"
#define GIRGS_AUTHOR_MAINTAINER "maintainer"
#define GIRGS_VERSION_MAJOR "0"
#define GIRGS_VERSION_MINOR "0"
#define GIRGS_VERSION_PATCH "0"
#define GIRGS_VERSION_REVISION "0"
#define GIRGS_VERSION "0.0.0"
#define GIRGS_NAME_VERSION "girgs v0.0.0 (0)"
